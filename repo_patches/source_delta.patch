From 3a4cae9a2aba063176f4f9c1a71e62e2e16fbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:38 +0000
Subject: [PATCH 01/27] fix: fir_filter corrupted memory on buffers shorter
 than the decimation or the filter

---
 src/dsp/fir_filter.c | 24 ++++++++++++++++++++----
 src/dsp/fir_filter.h |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..e862dc0 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -94,16 +94,24 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
                               fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    // outputs to skip can exceed the previous buffer if it was shorter than the decimation
+    size_t i = filter->skip;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // too short buffer might not be enough for even a single output
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -124,16 +132,24 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
                                 size_t *output_len, fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    // outputs to skip can exceed the previous buffer if it was shorter than the decimation
+    size_t i = filter->skip;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // too short buffer might not be enough for even a single output
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..e0aa6df 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,7 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From 5b5ed6ccdcede7faeaa1aa725eb2956c59a86aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:42 +0000
Subject: [PATCH 02/27] fix: filter constructors leaked, double freed or used
 invalid memory when they failed

---
 src/dsp/fir_filter.c            | 18 ++++++++++++++----
 src/dsp/gfsk_mod.c              |  1 +
 src/dsp/interp_fir_filter.c     |  5 +----
 src/dsp/lpf.c                   |  1 +
 src/dsp/mmse_fir_interpolator.c |  1 +
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index e862dc0..d572e9b 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -10,11 +10,16 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     // Make a set of taps at all possible alignments
     float **result = malloc(number_of_aligned * sizeof(float *));
     if (result == NULL) {
-        return -1;
+        return -ENOMEM;
     }
+    filter->taps = result;
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            return -ENOMEM;
+        }
+        filter->aligned_taps_len++;
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
@@ -27,8 +32,6 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
             result[i][i + j] = original_taps[taps_len - j - 1];
         }
     }
-    filter->taps = result;
-    filter->aligned_taps_len = number_of_aligned;
     return 0;
 }
 
@@ -41,8 +44,14 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fir_filter_t) {0};
 
+    if (decimation == 0 || taps_len == 0) {
+        fprintf(stderr, "<3>decimation and number of taps should be positive\n");
+        fir_filter_destroy(result);
+        return -1;
+    }
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
+        errno = 0;
         result->alignment = strtol(alignment_override, (char **) NULL, 10);
         if (errno == ERANGE || result->alignment == 0) {
             fprintf(stderr, "<3>invalid VOLK_ALIGNMENT specified: %s\n", alignment_override);
@@ -55,7 +64,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
@@ -86,6 +94,8 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
         return -ENOMEM;
     }
 
+    // take ownership only when nothing can fail. otherwise caller should release taps
+    result->original_taps = taps;
     *filter = result;
     return 0;
 }
diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..59e947b 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
diff --git a/src/dsp/interp_fir_filter.c b/src/dsp/interp_fir_filter.c
index 183803a..6358438 100644
--- a/src/dsp/interp_fir_filter.c
+++ b/src/dsp/interp_fir_filter.c
@@ -46,7 +46,6 @@ float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps
     if (interleaved_taps == NULL) {
         return NULL;
     }
-    *interleaved_taps = (float *) {0};
 
     //init individual taps so that they can be freed by the corresponding filter
     int result_code = 0;
@@ -58,9 +57,7 @@ float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps
     }
     if (result_code != 0) {
         for (uint8_t i = 0; i < interpolation; i++) {
-            if (interleaved_taps[i] != NULL) {
-                free(interleaved_taps[i]);
-            }
+            free(interleaved_taps[i]);
         }
         free(interleaved_taps);
         return NULL;
diff --git a/src/dsp/lpf.c b/src/dsp/lpf.c
index 776f0d0..272051c 100644
--- a/src/dsp/lpf.c
+++ b/src/dsp/lpf.c
@@ -27,6 +27,7 @@ int lpf_create(uint8_t decimation, uint64_t sampling_freq, uint64_t cutoff_freq,
     }
     code = fir_filter_create(decimation, taps, taps_len, max_input_buffer_length, num_bytes, &result->filter);
     if (code != 0) {
+        free(taps);
         lpf_destroy(result);
         return code;
     }
diff --git a/src/dsp/mmse_fir_interpolator.c b/src/dsp/mmse_fir_interpolator.c
index bb18ba6..1f185f2 100644
--- a/src/dsp/mmse_fir_interpolator.c
+++ b/src/dsp/mmse_fir_interpolator.c
@@ -171,6 +171,7 @@ int mmse_fir_interpolator_create(mmse_fir_interpolator **interp) {
         int code = fir_filter_create(1, filter_taps, result->taps_len, result->taps_len, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
+            free(filter_taps);
             result_code = code;
             result->filters[i] = NULL;
         } else {
-- 
2.43.0


From 1a696f880d7b75791e60fc6fb3afff82dddaad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:47 +0000
Subject: [PATCH 03/27] fix: modulator and low-pass filter accepted parameters
 they cannot work with

Samples per symbol outside of uint8_t was silently truncated or divided by zero,
number of taps could overflow int and single tap window was not a number.
---
 src/dsp/gfsk_mod.c |  6 ++++++
 src/dsp/lpf_taps.c | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 59e947b..df688e4 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -48,6 +48,12 @@ int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint3
     }
     // init all fields with 0 so that destroy_* method would work
     *result = (struct gfsk_mod_t) {0};
+    // every symbol is interpolated with the integer factor stored in uint8_t
+    if (!(samples_per_symbol >= 1.0F && samples_per_symbol < 256.0F) || max_input_buffer_length > UINT32_MAX / 8 / (uint32_t) samples_per_symbol) {
+        fprintf(stderr, "<3>invalid samples per symbol: %f or buffer length: %u\n", samples_per_symbol, max_input_buffer_length);
+        gfsk_mod_destroy(result);
+        return -1;
+    }
     result->temp_input_len = max_input_buffer_length * 8;
     result->temp_input = malloc(sizeof(float) * result->temp_input_len);
     if (result->temp_input == NULL) {
diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 453e9cd..ea918c4 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -11,6 +11,9 @@
 #include "lpf_taps.h"
 #include <inttypes.h>
 
+// protect from int overflow and gigantic memory allocations
+#define MAX_TAPS (1 << 20)
+
 int sanity_check_1f(uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t transition_width) {
     if (sampling_freq <= 0) {
         fprintf(stderr, "<3>sampling frequency should be positive\n");
@@ -27,6 +30,11 @@ int sanity_check_1f(uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t trans
         return -1;
     }
 
+    if (53 * (double) sampling_freq / (22.0 * (double) transition_width) > MAX_TAPS) {
+        fprintf(stderr, "<3>transition width %u is too narrow for sampling freq: %" PRIu64 "\n", transition_width, sampling_freq);
+        return -1;
+    }
+
     return 0;
 }
 
@@ -45,7 +53,10 @@ int create_hamming_window(int ntaps, float **output) {
         return -ENOMEM;
     }
     int m = ntaps - 1;
-    for (int n = 0; n < ntaps; n++) {
+    if (m == 0) {
+        result[0] = 1.0F;
+    }
+    for (int n = 0; m > 0 && n < ntaps; n++) {
         result[n] = (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
     }
     *output = result;
-- 
2.43.0


From 4d78de54b997a5d0cdc5a7ec03805d9a33468ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:34 +0000
Subject: [PATCH 04/27] fix: clock recovery corrupted memory and lost or
 repeated symbols

Symbol which starts after the end of the buffer was produced twice, unusual
amplitude moved the index before the buffer, infinite sample stopped recovery
forever.
---
 src/dsp/clock_recovery_mm.c | 55 ++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..424b8ab 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -6,6 +6,9 @@
 #include <volk/volk.h>
 #include <stdio.h>
 
+// more than that cannot be represented in float precisely
+#define MAX_SAMPLES_PER_SYMBOL 16777216.0F
+
 struct clock_mm_t {
     mmse_fir_interpolator *interp;
     float omega;
@@ -19,6 +22,8 @@ struct clock_mm_t {
 
     float *working_buffer;
     size_t history_offset;
+    // number of samples to skip from the next input
+    size_t skip;
     size_t working_len_total;
 
     float *output;
@@ -28,6 +33,11 @@ struct clock_mm_t {
 int
 clock_mm_create(float omega, float gain_omega, float mu, float gain_mu, float omega_relative_limit, size_t output_len,
                 clock_mm **clock) {
+    // at least one sample per symbol
+    if (!(omega >= 1.0F && omega < MAX_SAMPLES_PER_SYMBOL) || !isfinite(gain_omega) || !isfinite(gain_mu) || !(mu >= 0.0F && mu <= 1.0F) || !(omega_relative_limit >= 0.0F && omega_relative_limit < 1.0F)) {
+        fprintf(stderr, "<3>invalid clock recovery parameters. samples per symbol: %f mu: %f limit: %f\n", omega, mu, omega_relative_limit);
+        return -1;
+    }
     struct clock_mm_t *result = malloc(sizeof(struct clock_mm_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -71,8 +81,11 @@ float slice(float x) {
     return x < 0 ? -1.0F : 1.0F;
 }
 
-static inline float branchless_clip(float x, float clip) {
-    return 0.5F * (fabsf(x + clip) - fabsf(x - clip));
+static inline float clip(float x, float min, float max) {
+    if (x < min) {
+        return min;
+    }
+    return x > max ? max : x;
 }
 
 void clock_mm_process(const float *input, size_t input_len, float **output, size_t *output_len, clock_mm *clock) {
@@ -86,48 +99,46 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
-    // not enough input
-    if (working_len < taps_len) {
-        clock->history_offset = working_len;
-        *output = NULL;
-        *output_len = 0;
-        return;
-    }
-    size_t max_index = working_len - (taps_len - 1);
+    // might not be enough input even for a single output
+    size_t max_index = working_len < taps_len ? 0 : working_len - (taps_len - 1);
     float mm_val;
 
     while (ii < max_index && oo < clock->output_len) {
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
-        if (isnan(clock->output[oo])) {
+        if (!isfinite(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
-            ii += (int) floorf(clock->omega);
+            ii += (size_t) fmaxf(1.0F, floorf(clock->omega));
             oo++;
             continue;
         }
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
+        if (!isfinite(mm_val)) {
+            mm_val = 0.0F;
+        }
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
-        clock->omega = clock->omega + clock->gain_omega * mm_val;
-        clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
-        clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
+        clock->omega = clock->omega + clip(clock->gain_omega * mm_val, -clock->omega_mid, clock->omega_mid);
+        clock->omega = clip(clock->omega, clock->omega_mid - clock->omega_lim, clock->omega_mid + clock->omega_lim);
+        // samples with unusual amplitude should not move index backwards or too far away
+        clock->mu = clip(clock->mu + clock->omega + clock->gain_mu * mm_val, 1.0F, 2 * clock->omega_mid + 1.0F);
+        ii += (size_t) floorf(clock->mu);
         clock->mu = clock->mu - floorf(clock->mu);
         oo++;
     }
 
+    // next symbol might start after the end of this buffer
     size_t last_index;
     if (ii > working_len) {
-        last_index = previous;
+        clock->skip = ii - working_len;
+        last_index = working_len;
     } else {
+        clock->skip = 0;
         last_index = ii;
     }
     clock->history_offset = working_len - last_index;
-- 
2.43.0


From 156d1a2bfe4fe1ffd30f5b149bbc31843d77350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:34 +0000
Subject: [PATCH 05/27] fix: non-finite samples blocked dc blocker forever and
 caused undefined behavior in fast_atan2f

---
 src/dsp/dc_blocker.c   | 9 ++++++++-
 src/math/fast_atan2f.c | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/dc_blocker.c b/src/dsp/dc_blocker.c
index c5b7b7c..a19e0c7 100644
--- a/src/dsp/dc_blocker.c
+++ b/src/dsp/dc_blocker.c
@@ -1,5 +1,7 @@
 #include <stdlib.h>
 #include <errno.h>
+#include <math.h>
+#include <stdio.h>
 #include <string.h>
 
 #include "dc_blocker.h"
@@ -64,6 +66,10 @@ float moving_average_process(float input, struct moving_average *mavg) {
 }
 
 int dc_blocker_create(int length, dc_blocker **blocker) {
+    if (length < 2) {
+        fprintf(stderr, "<3>dc blocker is too short: %d\n", length);
+        return -1;
+    }
     struct dc_blocker_t *result = malloc(sizeof(struct dc_blocker_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -104,7 +110,8 @@ int dc_blocker_create(int length, dc_blocker **blocker) {
 
 void dc_blocker_process(float *input, size_t input_len, float **output, size_t *output_len, dc_blocker *blocker) {
     for (size_t i = 0; i < input_len; i++) {
-        float y1 = moving_average_process(input[i], blocker->ma0);
+        // moving average never forgets non-finite number
+        float y1 = moving_average_process(isfinite(input[i]) ? input[i] : 0.0F, blocker->ma0);
         float y2 = moving_average_process(y1, blocker->ma1);
         float y3 = moving_average_process(y2, blocker->ma2);
         float y4 = moving_average_process(y3, blocker->ma3);
diff --git a/src/math/fast_atan2f.c b/src/math/fast_atan2f.c
index f392634..02fa146 100644
--- a/src/math/fast_atan2f.c
+++ b/src/math/fast_atan2f.c
@@ -104,7 +104,8 @@ float fast_atan2f(float y, float x)
 
     /* when ratio approaches the table resolution, the angle is */
     /* best approximated with the argument itself... */
-    if (z < TAN_MAP_RES)
+    /* z is not a number for non-finite input */
+    if (!(z >= TAN_MAP_RES))
         base_angle = z;
     else {
         /* find index and interpolation value */
-- 
2.43.0


From e2bb83d578583f965caf40d682b5420cfcc7c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:03 +0000
Subject: [PATCH 06/27] fix: fsk demodulator accepted parameters it cannot work
 with, frequency shift above sampling rate lost phase

---
 src/dsp/fsk_demod.c  | 28 +++++++++++++++++++++++++++-
 src/dsp/sig_source.c |  7 ++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dsp/fsk_demod.c b/src/dsp/fsk_demod.c
index db2e65b..eb636b2 100644
--- a/src/dsp/fsk_demod.c
+++ b/src/dsp/fsk_demod.c
@@ -9,6 +9,9 @@
 
 #include "lpf.h"
 
+// protect from int overflow and gigantic memory allocations
+#define MAX_SAMPLES_PER_SYMBOL (1 << 20)
+
 #ifndef M_PI
 #define M_PI 3.14159265358979323846
 #endif
@@ -33,7 +36,18 @@ int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviati
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fsk_demod_t) {0};
 
-    double carson_cutoff = (double) llabs(deviation) + (double) baud_rate / 2;
+    if (deviation == 0 || baud_rate == 0 || decimation == 0) {
+        fprintf(stderr, "<3>deviation, baud rate and decimation should not be 0\n");
+        fsk_demod_destroy(result);
+        return -1;
+    }
+    double carson_cutoff = fabs((double) deviation) + (double) baud_rate / 2;
+    // check before converting to integers
+    if (carson_cutoff > (double) sampling_freq / 2 || carson_cutoff > UINT32_MAX) {
+        fprintf(stderr, "<3>signal bandwidth %f doesn't fit into sampling freq: %f\n", 2 * carson_cutoff, (double) sampling_freq);
+        fsk_demod_destroy(result);
+        return -1;
+    }
     int code = lpf_create(1, sampling_freq, (uint64_t) carson_cutoff, (uint32_t) (0.1f * carson_cutoff), max_input_buffer_length, sizeof(float complex), &result->lpf1);
     if (code != 0) {
         fsk_demod_destroy(result);
@@ -52,6 +66,13 @@ int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviati
 
     float sps = (float) ((double) sampling_freq / baud_rate / decimation);
 
+    // clock recovery cannot work with less than 1 sample per symbol
+    if (sps < 1.0F || sps > (float) MAX_SAMPLES_PER_SYMBOL) {
+        fprintf(stderr, "<3>invalid samples per symbol: %f\n", sps);
+        fsk_demod_destroy(result);
+        return -1;
+    }
+
     if (use_dc_block) {
         code = dc_blocker_create((int) ceilf(sps * 32), &result->dc);
         if (code != 0) {
@@ -81,6 +102,11 @@ void fsk_demod_process(const float complex *input, size_t input_len, int8_t **ou
     float complex *lpf_output = NULL;
     size_t lpf_output_len = 0;
     lpf_process(input, input_len, (void **) &lpf_output, &lpf_output_len, demod->lpf1);
+    if (lpf_output == NULL) {
+        *output = NULL;
+        *output_len = 0;
+        return;
+    }
 
     float *qd_output = NULL;
     size_t qd_output_len = 0;
diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index 9816fec..ae30c33 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -45,11 +45,8 @@ void sig_source_process(int64_t freq, size_t expected_output_len, float complex
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
         source->phase += adjusted_freq;
-        if (source->phase < -M_2PI) {
-            source->phase += M_2PI;
-        }
-        if (source->phase > M_2PI) {
-            source->phase -= M_2PI;
+        if (source->phase < -M_2PI || source->phase > M_2PI) {
+            source->phase = fmodf(source->phase, M_2PI);
         }
     }
 
-- 
2.43.0


From 20dc72737532537eb2323be358ef38bc3b6cbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:44 +0000
Subject: [PATCH 07/27] fix: satellite elements and doppler requests with
 impossible values corrupted memory or never finished

---
 src/dsp/doppler.c     | 18 ++++++++++++++++++
 src/sgpsdp/sgp4sdp4.c |  3 ++-
 src/sgpsdp/sgp_in.c   | 13 +++++++++++--
 src/sgpsdp/sgp_math.c | 10 ++--------
 src/sgpsdp/sgp_time.c |  2 +-
 5 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 7fddc2f..515273d 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -5,6 +5,10 @@
 
 // km/sec
 double SPEED_OF_LIGHT = 2.99792458E5;
+// elements describe orbit only nearby the epoch
+#define MAX_DAYS_SINCE_EPOCH 36525.0
+// 9999-12-31
+#define MAX_START_TIME 253402300799
 
 struct doppler_t {
     sig_source *source;
@@ -38,10 +42,19 @@ double doppler_calculate_shift(doppler *result, int direction) {
 
     Convert_Sat_State(&result->satellite->pos, &result->satellite->vel);
     Calculate_Obs(result->satellite->jul_utc, &result->satellite->pos, &result->satellite->vel, result->ground_station, result->obs_set);
+    // decayed satellite
+    if (!isfinite(result->obs_set->range_rate) || fabs(result->obs_set->range_rate) >= SPEED_OF_LIGHT) {
+        return result->constant_offset;
+    }
     return (direction * (result->center_freq - result->center_freq * (SPEED_OF_LIGHT - result->obs_set->range_rate) / SPEED_OF_LIGHT)) + result->constant_offset;
 }
 
 int doppler_create(double latitude, double longitude, double altitude, uint64_t sampling_freq, uint64_t center_freq, int64_t constant_offset, time_t start_time_seconds, uint32_t max_output_buffer_length, char tle[3][80], doppler **d) {
+    if (sampling_freq == 0 || center_freq > INT64_MAX / 4 || constant_offset > INT64_MAX / 4 || constant_offset < -INT64_MAX / 4 ||
+        start_time_seconds > MAX_START_TIME || start_time_seconds < -MAX_START_TIME) {
+        fprintf(stderr, "<3>invalid doppler configuration\n");
+        return -1;
+    }
     struct doppler_t *result = malloc(sizeof(struct doppler_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -108,6 +121,11 @@ int doppler_create(double latitude, double longitude, double altitude, uint64_t
     }
     select_ephemeris(result->satellite);
     result->satellite->jul_epoch = Julian_Date_of_Epoch(result->satellite->tle.epoch);
+    if (result->jul_start_time != 0.0 && !(fabs(result->jul_start_time - result->satellite->jul_epoch) < MAX_DAYS_SINCE_EPOCH)) {
+        fprintf(stderr, "<3>start time is too far from the tle epoch\n");
+        doppler_destroy(result);
+        return -1;
+    }
     result->next_freq_difference = 0;
     *d = result;
     return 0;
diff --git a/src/sgpsdp/sgp4sdp4.c b/src/sgpsdp/sgp4sdp4.c
index 74b1d61..3781c82 100644
--- a/src/sgpsdp/sgp4sdp4.c
+++ b/src/sgpsdp/sgp4sdp4.c
@@ -1018,7 +1018,8 @@ void Deep (int ientry, sat_t *sat)
 /* Functions for testing and setting/clearing flags */
 
 /* An int variable holding the single-bit flags */
-static int Flags = 0;
+/* satellites can be tracked from different threads */
+static __thread int Flags = 0;
 
 int isFlagSet(int flag)
 {
diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index bc0c0d7..25ce7b7 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -222,7 +222,7 @@ void Convert_Satellite_Data(char *tle_set, tle_t * tle)
     /* Satellite's Revolution number at epoch */
     strncpy(buff, &tle_set[132], 5);
     buff[5] = '\0';
-    tle->revnum = atof (buff);
+    tle->revnum = atoi(buff);
 
 }
 
@@ -291,7 +291,7 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
                 }
 
                 /* terminate sat_name string */
-                tle->sat_name[idx - 1] = '\0';
+                tle->sat_name[idx > 0 ? idx - 1 : 0] = '\0';
 
                 /* force loop exit */
                 idx = 25;
@@ -333,6 +333,15 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
     /* Convert the TLE set to orbital elements */
     Convert_Satellite_Data(tle_set, tle);
 
+    /* Values which cannot be an orbit around the Earth. Also protects from inf and nan */
+    if (!(tle->epoch >= 0.0 && tle->epoch < 100000.0) ||
+        !(tle->xno > 0.0 && tle->xno < 20.0) ||
+        !(tle->eo >= 0.0 && tle->eo < 1.0) ||
+        !(fabs(tle->xincl) <= 180.0) || !(fabs(tle->xnodeo) <= 360.0) ||
+        !(fabs(tle->omegao) <= 360.0) || !(fabs(tle->xmo) <= 360.0) ||
+        !(fabs(tle->bstar) < 1E6) || !(fabs(tle->xndt2o) < 1E6) || !(fabs(tle->xndd6o) < 1E6))
+        return (-2);
+
     return (1);
 }
 
diff --git a/src/sgpsdp/sgp_math.c b/src/sgpsdp/sgp_math.c
index 628b69b..42f9314 100644
--- a/src/sgpsdp/sgp_math.c
+++ b/src/sgpsdp/sgp_math.c
@@ -164,12 +164,9 @@ double AcTan(double sinx, double cosx)
 /* Returns mod 2pi of argument */
 double FMod2p(double x)
 {
-    int             i;
     double          ret_val;
 
-    ret_val = x;
-    i = ret_val / twopi;
-    ret_val -= i * twopi;
+    ret_val = fmod(x, twopi);
     if (ret_val < 0)
         ret_val += twopi;
 
@@ -179,12 +176,9 @@ double FMod2p(double x)
 /* Returns arg1 mod arg2 */
 double Modulus(double arg1, double arg2)
 {
-    int             i;
     double          ret_val;
 
-    ret_val = arg1;
-    i = ret_val / arg2;
-    ret_val -= i * arg2;
+    ret_val = fmod(arg1, arg2);
     if (ret_val < 0)
         ret_val += arg2;
 
diff --git a/src/sgpsdp/sgp_time.c b/src/sgpsdp/sgp_time.c
index 9795eed..6c6b6a0 100644
--- a/src/sgpsdp/sgp_time.c
+++ b/src/sgpsdp/sgp_time.c
@@ -298,7 +298,7 @@ void UTC_Calendar_Now(struct tm *cdate)
     time_t          t;
 
     t = time(0);
-    *cdate = *gmtime(&t);
+    gmtime_r(&t, cdate);
     cdate->tm_year += 1900;
     cdate->tm_mon += 1;
 
-- 
2.43.0


From fdb8c20e99f94048645121160c837915b3f5efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:39 +0000
Subject: [PATCH 08/27] fix: real-time queue of one buffer crashed while that
 buffer was being processed

---
 src/queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..b256514 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -123,9 +123,14 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
     struct queue_node *to_fill;
     if (queue->first_free_node == NULL) {
         // queue is full
+        fprintf(stderr, "<3>queue is full\n");
+        if (queue->last_filled_node == NULL) {
+            // the only node is being processed by the consumer, there is nothing to overwrite
+            pthread_mutex_unlock(&queue->mutex);
+            return -1;
+        }
         // overwrite last node
         to_fill = queue->last_filled_node;
-        fprintf(stderr, "<3>queue is full\n");
     } else {
         // remove from free nodes pool
         to_fill = queue->first_free_node;
-- 
2.43.0


From 4eff2b2c8def99f6d88a48e0d6c6eacbde3e2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:53 +0000
Subject: [PATCH 09/27] fix: client could block acceptor for hours by sending
 opening request slowly, incomplete request leaked memory

---
 src/api_utils.c   |  6 ++++--
 src/dsp/doppler.c |  3 +++
 src/tcp_utils.c   | 35 +++++++++++++++++++++++++++++++++++
 src/tcp_utils.h   |  3 +++
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..bb6b9df 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -45,8 +45,9 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     if (buffer == NULL) {
         return -ENOMEM;
     }
-    int code = tcp_utils_read_data(buffer, header->message_length, socket);
+    int code = tcp_utils_read_data_within_timeout(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -66,8 +67,9 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     if (buffer == NULL) {
         return -ENOMEM;
     }
-    int code = tcp_utils_read_data(buffer, header->message_length, socket);
+    int code = tcp_utils_read_data_within_timeout(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 515273d..0b13054 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -1,3 +1,6 @@
+// strict c99 hides posix functions
+#define _POSIX_C_SOURCE 200809L
+
 #include "doppler.h"
 #include "../sgpsdp/sgp4sdp4.h"
 #include "sig_source.h"
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..56ddefe 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -1,8 +1,13 @@
+// strict c99 hides posix functions
+#define _POSIX_C_SOURCE 200809L
+
 #include "tcp_utils.h"
 #include <stdio.h>
 #include <unistd.h>
 #include <errno.h>
 #include <sys/socket.h>
+#include <sys/time.h>
+#include <time.h>
 
 int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_socket) {
     size_t left = total_len_bytes;
@@ -47,3 +52,33 @@ int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket) {
     size_t actually_read = 0;
     return tcp_utils_read_data_partially(result, len_bytes, &actually_read, client_socket);
 }
+
+int tcp_utils_read_data_within_timeout(void *result, size_t len_bytes, int client_socket) {
+    struct timeval timeout = {0};
+    socklen_t timeout_len = sizeof(timeout);
+    if (getsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, &timeout_len) != 0) {
+        return -1;
+    }
+    struct timespec start;
+    clock_gettime(CLOCK_MONOTONIC, &start);
+    size_t left = len_bytes;
+    while (left > 0) {
+        ssize_t received = recv(client_socket, (char *) result + (len_bytes - left), left, 0);
+        if (received < 0 && errno == EINTR) {
+            continue;
+        }
+        if (received < 0 && (errno == EWOULDBLOCK || errno == EAGAIN)) {
+            return -errno;
+        }
+        if (received <= 0) {
+            return -1;
+        }
+        left -= received;
+        struct timespec now;
+        clock_gettime(CLOCK_MONOTONIC, &now);
+        if (left > 0 && timeout.tv_sec > 0 && now.tv_sec - start.tv_sec > timeout.tv_sec) {
+            return -EAGAIN;
+        }
+    }
+    return 0;
+}
diff --git a/src/tcp_utils.h b/src/tcp_utils.h
index e039686..39367ad 100644
--- a/src/tcp_utils.h
+++ b/src/tcp_utils.h
@@ -8,6 +8,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
 
 int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket);
 
+// same as tcp_utils_read_data, but the receive timeout of the socket limits the whole read
+int tcp_utils_read_data_within_timeout(void *result, size_t len_bytes, int client_socket);
+
 int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actually_read, int client_socket);
 
 #endif //SDR_MODEM_TCP_UTILS_H
-- 
2.43.0


From 974338ec9bb7d45a7970458221c5f4eda3a4f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:42 +0000
Subject: [PATCH 10/27] fix: dsp worker that failed or had a client that
 doesn't read blocked its producer and the server forever

---
 src/dsp_worker.c | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..acfac80 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -1,6 +1,11 @@
+// strict c99 hides posix functions
+#define _POSIX_C_SOURCE 200809L
+
 #include "dsp_worker.h"
 #include <stdio.h>
 #include <pthread.h>
+#include <time.h>
+#include <sys/socket.h>
 #include <errno.h>
 #include "dsp/fsk_demod.h"
 #include "queue.h"
@@ -18,6 +23,11 @@ struct dsp_worker_t {
     doppler *dopp;
     queue *queue;
     pthread_t dsp_thread;
+    bool dsp_thread_started;
+    bool dsp_thread_finished;
+    int finish_timeout_seconds;
+    pthread_mutex_t mutex;
+    pthread_cond_t condition;
     FILE *rx_dump_file;
     FILE *demod_file;
     DemodDestination demod_destination;
@@ -59,6 +69,7 @@ static void *dsp_worker_callback(void *arg) {
             if (n_written < input_len) {
                 complete_buffer_processing(worker->queue);
                 fprintf(stderr, "<3>[%d] unable to write sdr data\n", id);
+                shutdown(worker->client_socket, SHUT_RDWR);
                 break;
             }
         }
@@ -86,6 +97,7 @@ static void *dsp_worker_callback(void *arg) {
             if (n_written < demod_output_len) {
                 complete_buffer_processing(worker->queue);
                 fprintf(stderr, "<3>[%d] unable to write demod data\n", id);
+                shutdown(worker->client_socket, SHUT_RDWR);
                 break;
             }
         }
@@ -101,7 +113,13 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nobody takes the data anymore, do not let the producer wait for it
+    interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
+    pthread_mutex_lock(&worker->mutex);
+    worker->dsp_thread_finished = true;
+    pthread_cond_broadcast(&worker->condition);
+    pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
 }
 
@@ -115,6 +133,9 @@ int dsp_worker_create(uint32_t id, int client_socket, struct server_config *serv
     *result = (struct dsp_worker_t) {0};
     result->id = id;
     result->client_socket = client_socket;
+    result->finish_timeout_seconds = server_config->read_timeout_seconds;
+    result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
+    result->condition = (pthread_cond_t) PTHREAD_COND_INITIALIZER;
 
     int code = 0;
     if (req->doppler != NULL) {
@@ -191,6 +212,7 @@ int dsp_worker_create(uint32_t id, int client_socket, struct server_config *serv
         return -1;
     }
     result->dsp_thread = dsp_thread;
+    result->dsp_thread_started = true;
 
     *worker = result;
     return 0;
@@ -205,8 +227,26 @@ void dsp_worker_destroy(void *data) {
     if (worker->queue != NULL) {
         interrupt_waiting_the_data(worker->queue);
     }
-    // wait until thread terminates and only then destroy the worker
-    pthread_join(worker->dsp_thread, NULL);
+    if (worker->dsp_thread_started) {
+        // give the client some time to receive the remaining data
+        // client that doesn't read should not block forever
+        struct timespec deadline;
+        clock_gettime(CLOCK_REALTIME, &deadline);
+        deadline.tv_sec += worker->finish_timeout_seconds;
+        pthread_mutex_lock(&worker->mutex);
+        while (!worker->dsp_thread_finished) {
+            if (pthread_cond_timedwait(&worker->condition, &worker->mutex, &deadline) != 0) {
+                break;
+            }
+        }
+        bool finished = worker->dsp_thread_finished;
+        pthread_mutex_unlock(&worker->mutex);
+        if (!finished && worker->demod_destination != DEMOD_DESTINATION__FILE) {
+            shutdown(worker->client_socket, SHUT_RDWR);
+        }
+        // wait until thread terminates and only then destroy the worker
+        pthread_join(worker->dsp_thread, NULL);
+    }
     if (worker->queue != NULL) {
         destroy_queue(worker->queue);
     }
-- 
2.43.0


From 76a754c72242e4f13a6a4f3bec9b8916fb27a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:04 +0000
Subject: [PATCH 11/27] fix: samples were lost, misaligned or delivered to a
 dead worker, connection to sdr server leaked

---
 src/sdr/sdr_server_client.c | 67 +++++++++++++++++++++++++++----------
 src/sdr_worker.c            | 41 ++++++++++++++++-------
 2 files changed, 78 insertions(+), 30 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..9cc84e7 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -7,6 +7,7 @@
 #include <unistd.h>
 #include <string.h>
 #include <stdbool.h>
+#include <time.h>
 
 #include "../tcp_utils.h"
 #include "sdr_server_client.h"
@@ -14,9 +15,13 @@
 struct sdr_server_client_t {
     int client_socket;
     uint32_t id;
+    int read_timeout_seconds;
 
     float complex *output;
     size_t output_len;
+    // the first bytes of the sample which was not fully received
+    char partial[sizeof(float complex)];
+    size_t output_partial;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -27,6 +32,8 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     *result = (struct sdr_server_client_t) {0};
 
     result->id = id;
+    result->client_socket = -1;
+    result->read_timeout_seconds = read_timeout_seconds;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -46,11 +53,16 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
     }
+    // limits connect as well
+    if (setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv)) {
+        perror("setsockopt - SO_SNDTIMEO");
+        sdr_server_client_destroy(result);
+        return -1;
+    }
 
     struct sockaddr_in address;
     address.sin_family = AF_INET;
@@ -58,7 +70,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -70,6 +81,13 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
 }
 
 int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_device **output) {
+    // only 32 bits are available in the request
+    int64_t tuned_freq;
+    if (__builtin_add_overflow(rx->rx_center_freq, rx->rx_offset, &tuned_freq) || tuned_freq < 0 || tuned_freq > UINT32_MAX ||
+        rx->rx_center_freq > UINT32_MAX || rx->rx_sampling_freq > UINT32_MAX) {
+        fprintf(stderr, "<3>[%d] frequency is not supported by sdr server\n", id);
+        return -1;
+    }
     sdr_server_client *client = NULL;
     int code = sdr_server_client_create_inner(id, addr, port, read_timeout_seconds, max_output_buffer_length, &client);
     if (code != 0) {
@@ -77,7 +95,7 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     }
 
     struct sdr_server_request req;
-    req.center_freq = rx->rx_center_freq + rx->rx_offset;
+    req.center_freq = tuned_freq;
     req.band_freq = rx->rx_center_freq;
     req.destination = SDR_SERVER_REQUEST_DESTINATION_SOCKET;
     req.sampling_rate = rx->rx_sampling_freq;
@@ -150,11 +168,21 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    // the last sample might be received partially
+    memcpy(client->output, client->partial, client->output_partial);
+    int code = tcp_utils_read_data_partially((char *) client->output + client->output_partial, sizeof(float complex) * client->output_len - client->output_partial, &actually_read, client->client_socket);
+    actually_read += client->output_partial;
+    client->output_partial = actually_read % sizeof(float complex);
+    if (actually_read >= sizeof(float complex)) {
+        memcpy(client->partial, (char *) client->output + (actually_read - client->output_partial), client->output_partial);
         *output = client->output;
         *output_len = actually_read / sizeof(float complex);
+        // no more data at the moment, but what is already received should be processed
+        if (code < -1) {
+            code = 0;
+        }
     } else {
+        memcpy(client->partial, client->output, client->output_partial);
         *output = NULL;
         *output_len = 0;
     }
@@ -192,23 +220,23 @@ void sdr_server_client_stop(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
-    while (true) {
-        struct sdr_server_message_header header;
-        header.type = SDR_SERVER_TYPE_SHUTDOWN;
-        header.protocol_version = SDR_SERVER_PROTOCOL_VERSION;
-        int code = tcp_utils_write_data((uint8_t *) &header, sizeof(struct sdr_server_message_header), client->client_socket);
-        // sdr server was already disconnected
-        if (code != 0) {
-            break;
-        }
-        // if not, then wait until sdr server gracefully cleanup and shutdown current freq band
-        code = tcp_utils_read_data(&header, sizeof(struct sdr_server_message_header), client->client_socket);
-        if (code != 0) {
+    struct sdr_server_message_header header;
+    header.type = SDR_SERVER_TYPE_SHUTDOWN;
+    header.protocol_version = SDR_SERVER_PROTOCOL_VERSION;
+    int code = tcp_utils_write_data((uint8_t *) &header, sizeof(struct sdr_server_message_header), client->client_socket);
+    // wait until sdr server gracefully cleanup and shutdown current freq band
+    // unless it was already disconnected
+    time_t deadline = time(NULL) + client->read_timeout_seconds;
+    while (code == 0 && time(NULL) <= deadline) {
+        char buffer[4096];
+        if (recv(client->client_socket, buffer, sizeof(buffer), 0) <= 0 && errno != EINTR) {
             break;
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // unblock the thread reading the data
+    // the socket itself is closed only when it is not used
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -219,6 +247,9 @@ void sdr_server_client_destroy(void *plugin) {
     if (client->output != NULL) {
         free(client->output);
     }
+    if (client->client_socket >= 0) {
+        close(client->client_socket);
+    }
     free(client);
 }
 
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..dcdf73e 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -14,6 +14,8 @@ struct sdr_worker_t {
     uint32_t id;
     linked_list *dsp_configs;
     pthread_t sdr_thread;
+    bool sdr_thread_started;
+    bool is_running;
     pthread_mutex_t mutex;
 };
 
@@ -49,6 +51,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->is_running = false;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -67,14 +70,7 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->rx = rx;
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
     result->rx_device = rx_device;
-
-    pthread_t sdr_thread;
-    int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
-    if (code != 0) {
-        sdr_worker_destroy(result);
-        return code;
-    }
-    result->sdr_thread = sdr_thread;
+    result->is_running = true;
 
     *worker = result;
     return 0;
@@ -87,9 +83,12 @@ bool sdr_worker_find_closest(void *id, void *data) {
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
-        return true;
+        pthread_mutex_lock(&worker->mutex);
+        bool is_running = worker->is_running;
+        pthread_mutex_unlock(&worker->mutex);
+        return is_running;
     }
     return false;
 }
@@ -98,12 +97,15 @@ void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *worker) {
     if (worker == NULL) {
         return;
     }
+    dsp_worker *dsp = NULL;
     pthread_mutex_lock(&worker->mutex);
     if (worker->dsp_configs != NULL) {
-        linked_list_destroy_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
+        dsp = linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
     }
     bool result = (worker->dsp_configs == NULL);
     pthread_mutex_unlock(&worker->mutex);
+    // can wait for the slow client, do not block others
+    dsp_worker_destroy(dsp);
     if (result) {
         sdr_worker_destroy(worker);
     }
@@ -118,7 +120,9 @@ void sdr_worker_destroy(void *data) {
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
     }
-    pthread_join(worker->sdr_thread, NULL);
+    if (worker->sdr_thread_started) {
+        pthread_join(worker->sdr_thread, NULL);
+    }
     //destroy the rx device
     if (worker->rx_device != NULL) {
         worker->rx_device->destroy(worker->rx_device->plugin);
@@ -139,9 +143,22 @@ void sdr_worker_destroy(void *data) {
     fprintf(stdout, "[%d] sdr_worker stopped\n", id);
 }
 
+static bool sdr_worker_is_same(void *id, void *data) {
+    return id == data;
+}
+
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    // start reading only when there is someone to process the very first buffer
+    if (code == 0 && !sdr->sdr_thread_started) {
+        code = pthread_create(&sdr->sdr_thread, NULL, &sdr_worker_callback, sdr);
+        if (code == 0) {
+            sdr->sdr_thread_started = true;
+        } else {
+            linked_list_remove_by_id(worker, &sdr_worker_is_same, &sdr->dsp_configs);
+        }
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
-- 
2.43.0


From 0bb3f9f11919875fdd8b2a65fe2c027d025fe714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:04 +0000
Subject: [PATCH 12/27] fix: concurrent sessions could corrupt memory, mix
 responses with data, leak resources or lose message framing

---
 src/api_utils.h  |   2 +
 src/tcp_server.c | 213 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 156 insertions(+), 59 deletions(-)

diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..56e07ac 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -5,6 +5,8 @@
 #include "api.h"
 #include "api.pb-c.h"
 
+extern uint32_t MAX_MESSAGE_LENGTH;
+
 int api_utils_read_header(int socket, struct message_header *header);
 
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..3ebaa38 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <sys/time.h>
+#include <sys/select.h>
 #include <netinet/in.h>
 #include <arpa/inet.h>
 #include <errno.h>
@@ -17,6 +18,7 @@
 #include "tcp_server.h"
 #include "linked_list.h"
 #include "api_utils.h"
+#include "tcp_utils.h"
 #include "dsp_worker.h"
 #include "sdr_worker.h"
 #include "dsp/gfsk_mod.h"
@@ -40,6 +42,7 @@ struct tcp_worker {
     atomic_bool is_running;
 
     pthread_t client_thread;
+    bool client_thread_started;
     tcp_server *server;
     sdr_worker *sdr;
 
@@ -55,7 +58,7 @@ struct tcp_worker {
 
 struct tcp_server_t {
     int server_socket;
-    volatile sig_atomic_t is_running;
+    atomic_bool is_running;
     pthread_t acceptor_thread;
     struct server_config *server_config;
     uint32_t client_counter;
@@ -111,6 +114,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] invalid tle supplied\n", client_id);
         return -1;
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     if (config->tx_sdr_type == TX_SDR_TYPE_FILE) {
         if (req->file_settings == NULL) {
             fprintf(stderr, "<3>[%d] missing file_settings parameter\n", client_id);
@@ -145,6 +152,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported demod_decimation: %d\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
@@ -173,9 +184,37 @@ void tcp_server_write_response_and_close(int client_socket, ResponseStatus statu
     close(client_socket);
 }
 
+// message body should be consumed even if the message is not supported
+// otherwise it would be treated as the next message
+static int tcp_worker_skip_body(struct tcp_worker *worker, const struct message_header *header) {
+    uint8_t buffer[1024];
+    uint32_t left = header->message_length;
+    while (left > 0 && worker->is_running) {
+        uint32_t batch = left < sizeof(buffer) ? left : sizeof(buffer);
+        int code = tcp_utils_read_data(buffer, batch, worker->client_socket);
+        if (code != 0) {
+            return code;
+        }
+        left -= batch;
+    }
+    return 0;
+}
+
 void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     TxData *data = NULL;
-    int code = api_utils_read_tx_data(worker->client_socket, header, &data);
+    int code;
+    if (header->message_length > MAX_MESSAGE_LENGTH) {
+        code = -1;
+        tcp_worker_skip_body(worker, header);
+    } else {
+        code = api_utils_read_tx_data(worker->client_socket, header, &data);
+    }
+    if (code == -ENOMEM) {
+        fprintf(stderr, "<3>[%d] unable to allocate memory for tx request\n", worker->id);
+        tcp_worker_skip_body(worker, header);
+        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        return;
+    }
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to read tx request fully\n", worker->id);
         api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
@@ -211,6 +250,12 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
             output_len = signal_output_len;
         }
 
+        if (output_len == 0) {
+            fprintf(stderr, "<3>[%d] unable to modulate request fully\n", worker->id);
+            api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+            break;
+        }
+
         if (worker->tx_dump_file != NULL) {
             size_t n_written = fwrite(output, sizeof(float complex), output_len, worker->tx_dump_file);
             if (n_written < output_len) {
@@ -240,6 +285,28 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     tx_data__free_unpacked(data, NULL);
 }
 
+static void tcp_worker_release(struct tcp_worker *worker) {
+    //new clients should not find sdr_worker which is about to be terminated
+    pthread_mutex_lock(&worker->server->mutex);
+    sdr_worker *sdr = worker->sdr;
+    worker->sdr = NULL;
+    pthread_mutex_unlock(&worker->server->mutex);
+    //terminate dsp_worker if any
+    //terminate sdr_worker if no more dsp_workers there
+    sdr_worker_destroy_by_dsp_worker_id(worker->id, sdr);
+    //terminate tx device if any
+    if (worker->tx_device != NULL) {
+        worker->tx_device->destroy(worker->tx_device->plugin);
+    }
+    pthread_mutex_lock(&worker->server->mutex);
+    free(worker->tx_device);
+    worker->tx_device = NULL;
+    close(worker->client_socket);
+    worker->client_socket = -1;
+    worker->is_running = false;
+    pthread_mutex_unlock(&worker->server->mutex);
+}
+
 static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
@@ -258,29 +325,21 @@ static void *tcp_worker_callback(void *arg) {
         }
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            tcp_worker_skip_body(worker, &header);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
             fprintf(stdout, "[%d] client requested disconnect\n", id);
             break;
-        } else if (header.type == TYPE_TX_DATA) {
+        } else if (header.type == TYPE_TX_DATA && worker->tx_req != NULL) {
             fprintf(stdout, "[%d] received tx request\n", id);
             handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            tcp_worker_skip_body(worker, &header);
         }
     }
-    //terminate dsp_worker if any
-    //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
-    //terminate tx device if any
-    if (worker->tx_device != NULL) {
-        worker->tx_device->destroy(worker->tx_device->plugin);
-        free(worker->tx_device);
-    }
-    close(worker->client_socket);
-
-    worker->is_running = false;
+    tcp_worker_release(worker);
     return (void *) 0;
 }
 
@@ -292,6 +351,15 @@ bool tcp_worker_is_stopped(void *data) {
     return true;
 }
 
+static void tcp_worker_stop(void *arg, void *data) {
+    struct tcp_worker *worker = (struct tcp_worker *) data;
+    worker->is_running = false;
+    if (worker->client_socket >= 0) {
+        //do not wait until read timeout happens
+        shutdown(worker->client_socket, SHUT_RD);
+    }
+}
+
 bool tcp_worker_is_txing(void *id, void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     return (worker->tx_device != NULL);
@@ -314,7 +382,9 @@ void tcp_worker_destroy(void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     fprintf(stdout, "[%d] tcp_worker is stopping\n", worker->id);
     worker->is_running = false;
-    pthread_join(worker->client_thread, NULL);
+    if (worker->client_thread_started) {
+        pthread_join(worker->client_thread, NULL);
+    }
     if (worker->rx_req != NULL) {
         rx_request__free_unpacked(worker->rx_req, NULL);
     }
@@ -393,7 +463,13 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
-int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
+static void tcp_server_destroy_rx_device(sdr_device *rx_device) {
+    rx_device->stop_rx(rx_device->plugin);
+    rx_device->destroy(rx_device->plugin);
+    free(rx_device);
+}
+
+int tcp_server_init_rx_device(tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
@@ -414,6 +490,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             // take id from the first tcp client
             code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
             if (code != 0) {
+                tcp_server_destroy_rx_device(rx_device);
                 free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
@@ -449,6 +526,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            tcp_server_destroy_rx_device(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
@@ -464,6 +542,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            tcp_server_destroy_rx_device(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
@@ -471,16 +550,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         fprintf(stdout, "[%d] demod file input at: %s\n", tcp_worker->id, tcp_worker->rx_req->file_settings->filename);
     } else {
         free(rx);
-        return -1;
-    }
-
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
-    if (code != 0) {
-        return -RESPONSE_DETAILS_INTERNAL_ERROR;
-    }
-
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
-    if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
 
@@ -488,6 +557,17 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
     return 0;
 }
 
+static void tcp_worker_start(struct tcp_worker *worker) {
+    worker->is_running = true;
+    int code = pthread_create(&worker->client_thread, NULL, &tcp_worker_callback, worker);
+    if (code != 0) {
+        fprintf(stderr, "<3>[%d] unable to start client thread: %d\n", worker->id, code);
+        tcp_worker_release(worker);
+        return;
+    }
+    worker->client_thread_started = true;
+}
+
 void handle_tx_client(int client_socket, struct message_header *header, tcp_server *server) {
     struct tcp_worker *tcp_worker = malloc(sizeof(struct tcp_worker));
     if (tcp_worker == NULL) {
@@ -535,7 +615,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // modulator guarantees it doesn't overflow
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
@@ -585,29 +666,23 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
+    pthread_mutex_lock(&server->mutex);
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        api_utils_write_response(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        tcp_worker_release(tcp_worker);
         tcp_worker_destroy(tcp_worker);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] mod: %s, tx freq: %" PRIu64 ", tx offset: %" PRId64 ", tx sampling_rate: %" PRIu64 ", baud: %d\n", tcp_worker->id, protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->tx_req->mod_type)->name, tcp_worker->tx_req->tx_center_freq,
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
             tcp_worker->tx_req->mod_baud_rate);
+    // response should be sent before any other message is handled
+    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+    tcp_worker_start(tcp_worker);
 }
 
 void handle_rx_client(int client_socket, struct message_header *header, tcp_server *server) {
@@ -644,19 +719,8 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
         return;
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
     dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -664,20 +728,33 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
 
     pthread_mutex_lock(&server->mutex);
-    code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
+    code = tcp_server_init_rx_device(server, tcp_worker);
+    if (code == 0 && linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers) != 0) {
+        code = -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    if (code == 0) {
+        // response should be sent before any demodulated data
+        api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+        if (sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr) != 0) {
+            fprintf(stderr, "<3>[%d] unable to start dsp worker\n", tcp_worker->id);
+            shutdown(tcp_worker->client_socket, SHUT_RDWR);
+            dsp_worker_destroy(dsp_worker);
+        }
+    }
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        api_utils_write_response(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        dsp_worker_destroy(dsp_worker);
         // this will trigger sdr_worker destroy if any
+        tcp_worker_release(tcp_worker);
         tcp_worker_destroy(tcp_worker);
-        dsp_worker_destroy(dsp_worker);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
+    tcp_worker_start(tcp_worker);
 }
 
 static void *acceptor_worker(void *arg) {
@@ -687,7 +764,15 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
-            break;
+            if (!server->is_running || errno == EBADF || errno == EINVAL || errno == ENOTSOCK) {
+                break;
+            }
+            // the client has disconnected already or there are not enough resources at the moment
+            perror("unable to accept client");
+            struct timeval pause = {.tv_sec = 0, .tv_usec = 10000};
+            select(0, NULL, NULL, NULL, &pause);
+            cleanup_terminated_threads(server);
+            continue;
         }
 
         struct timeval tv;
@@ -736,6 +821,9 @@ static void *acceptor_worker(void *arg) {
 
     }
 
+    pthread_mutex_lock(&server->mutex);
+    linked_list_foreach(NULL, &tcp_worker_stop, server->tcp_workers);
+    pthread_mutex_unlock(&server->mutex);
     linked_list_destroy(server->tcp_workers);
     server->tcp_workers = NULL;
 
@@ -753,7 +841,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket < 0) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -767,6 +855,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEADDR");
         return -1;
@@ -774,15 +863,17 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEPORT");
         return -1;
     }
 #endif
 
-    struct sockaddr_in address;
+    struct sockaddr_in address = {0};
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
+        close(server_socket);
         free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
         return -1;
@@ -790,11 +881,13 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
+        close(server_socket);
         free(result);
         perror("bind failed");
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
+        close(server_socket);
         free(result);
         perror("listen failed");
         return -1;
@@ -803,6 +896,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
@@ -814,6 +908,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 void tcp_server_join_thread(tcp_server *server) {
     pthread_join(server->acceptor_thread, NULL);
+    close(server->server_socket);
     free(server);
 }
 
-- 
2.43.0


From eb74f529a5c6d27af3907df4425f295fc34d2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:31 +0000
Subject: [PATCH 13/27] fix: stop signal received while server was starting or
 on a server thread was lost or terminated it abnormally

---
 src/main.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7f44c7a..da25038 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,3 +1,6 @@
+// strict c99 hides posix functions
+#define _POSIX_C_SOURCE 200809L
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
@@ -25,6 +28,15 @@ int main(int argc, char **argv) {
 		exit(EXIT_FAILURE);
 	}
 
+	// server can be stopped only when it is fully started
+	// other threads inherit this mask, so the handler is always executed in the main thread
+	sigset_t stop_signals;
+	sigemptyset(&stop_signals);
+	sigaddset(&stop_signals, SIGINT);
+	sigaddset(&stop_signals, SIGHUP);
+	sigaddset(&stop_signals, SIGTERM);
+	sigprocmask(SIG_BLOCK, &stop_signals, NULL);
+
 	signal(SIGINT, sdrmodem_stop_async);
 	signal(SIGHUP, sdrmodem_stop_async);
 	signal(SIGTERM, sdrmodem_stop_async);
@@ -37,7 +49,9 @@ int main(int argc, char **argv) {
 	}
 
 	// wait here until server terminates
-	tcp_server_join_thread(server);
+	tcp_server *started = server;
+	sigprocmask(SIG_UNBLOCK, &stop_signals, NULL);
+	tcp_server_join_thread(started);
 
 	// server will be freed on its own thread
 	server_config_destroy(server_config);
-- 
2.43.0


From 1dad176798a5c81e3c628abc98cc0b37ca8c59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:31 +0000
Subject: [PATCH 14/27] fix: plutosdr never finished transmission with buffer
 of one sample, leaked configuration on allocation failure

---
 src/sdr/plutosdr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..c3a935f 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -72,8 +72,9 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
     while (left > 0) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
         size_t batch;
-        if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
+        size_t max_batch = iio->output_len > 1 ? iio->output_len / 2 : 1;
+        if (left > max_batch) {
+            batch = max_batch;
         } else {
             batch = left;
         }
@@ -451,6 +452,8 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From db0b3f3f74d87a18d9b3ce909c5c2155eb796733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:31 +0000
Subject: [PATCH 15/27] fix: configuration with settings of unexpected type
 crashed, out of range values were silently truncated

plutosdr receiver crashed because libiio was loaded only for transmitter, integer gain was read as 0
---
 src/server_config.c | 173 +++++++++++++++++++++++++++-----------------
 1 file changed, 107 insertions(+), 66 deletions(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..65a467d 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -12,6 +12,10 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
         value = default_value;
     } else {
         value = config_setting_get_string(setting);
+        if (value == NULL) {
+            fprintf(stderr, "<3>%s should be a string\n", config_setting_name(setting));
+            return NULL;
+        }
     }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
@@ -23,6 +27,46 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     return result;
 }
 
+int read_int(const config_t *libconfig, const char *name, int64_t default_value, int64_t min, int64_t max, int64_t *output) {
+    const config_setting_t *setting = config_lookup(libconfig, name);
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    int type = config_setting_type(setting);
+    if (type != CONFIG_TYPE_INT && type != CONFIG_TYPE_INT64) {
+        fprintf(stderr, "<3>%s should be an integer\n", name);
+        return -1;
+    }
+    int64_t value = config_setting_get_int64(setting);
+    if (value < min || value > max) {
+        fprintf(stderr, "<3>%s is out of range: %lld\n", name, (long long) value);
+        return -1;
+    }
+    *output = value;
+    return 0;
+}
+
+int read_float(const config_t *libconfig, const char *name, double default_value, double *output) {
+    const config_setting_t *setting = config_lookup(libconfig, name);
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    switch (config_setting_type(setting)) {
+        case CONFIG_TYPE_FLOAT:
+            *output = config_setting_get_float(setting);
+            return 0;
+        case CONFIG_TYPE_INT:
+        case CONFIG_TYPE_INT64:
+            *output = (double) config_setting_get_int64(setting);
+            return 0;
+        default:
+            fprintf(stderr, "<3>%s should be a number\n", name);
+            return -1;
+    }
+}
+
 int server_config_create(struct server_config **config, const char *path) {
     fprintf(stdout, "loading configuration from: %s\n", path);
     struct server_config *result = malloc(sizeof(struct server_config));
@@ -42,17 +86,17 @@ int server_config_create(struct server_config **config, const char *path) {
         return -1;
     }
 
-    const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
-    uint32_t buffer_size;
-    if (setting == NULL) {
-        buffer_size = 262144;
-    } else {
-        buffer_size = (uint32_t) config_setting_get_int(setting);
+    int64_t int_value = 0;
+    code = read_int(&libconfig, "buffer_size", 262144, 1, INT32_MAX, &int_value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    fprintf(stdout, "buffer size: %d\n", buffer_size);
-    result->buffer_size = buffer_size;
+    result->buffer_size = (uint32_t) int_value;
+    fprintf(stdout, "buffer size: %d\n", result->buffer_size);
 
-    setting = config_lookup(&libconfig, "bind_address");
+    const config_setting_t *setting = config_lookup(&libconfig, "bind_address");
     char *bind_address = read_and_copy_str(setting, "127.0.0.1");
     if (bind_address == NULL) {
         config_destroy(&libconfig);
@@ -60,41 +104,32 @@ int server_config_create(struct server_config **config, const char *path) {
         return -ENOMEM;
     }
     result->bind_address = bind_address;
-    setting = config_lookup(&libconfig, "port");
-    uint16_t port;
-    if (setting == NULL) {
-        port = 8091;
-    } else {
-        port = (uint16_t) config_setting_get_int(setting);
+    code = read_int(&libconfig, "port", 8091, 0, UINT16_MAX, &int_value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->port = port;
+    result->port = (uint16_t) int_value;
     fprintf(stdout, "start listening on %s:%d\n", result->bind_address, result->port);
 
-    setting = config_lookup(&libconfig, "read_timeout_seconds");
-    int read_timeout_seconds;
-    if (setting == NULL) {
-        read_timeout_seconds = 5;
-    } else {
-        read_timeout_seconds = config_setting_get_int(setting);
-        if (read_timeout_seconds <= 0) {
-            fprintf(stderr, "<3>read timeout should be positive: %d\n", read_timeout_seconds);
-            config_destroy(&libconfig);
-            server_config_destroy(result);
-            return -1;
-        }
+    code = read_int(&libconfig, "read_timeout_seconds", 5, 1, INT32_MAX, &int_value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->read_timeout_seconds = read_timeout_seconds;
+    result->read_timeout_seconds = (int) int_value;
     fprintf(stdout, "read timeout %ds\n", result->read_timeout_seconds);
 
-    setting = config_lookup(&libconfig, "queue_size");
-    uint16_t queue_size;
-    if (setting == NULL) {
-        queue_size = 64;
-    } else {
-        queue_size = config_setting_get_int(setting);
+    code = read_int(&libconfig, "queue_size", 64, 1, UINT16_MAX, &int_value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    fprintf(stdout, "queue_size: %d\n", queue_size);
-    result->queue_size = queue_size;
+    result->queue_size = (uint16_t) int_value;
+    fprintf(stdout, "queue_size: %d\n", result->queue_size);
 
     const char *default_folder = getenv("TMPDIR");
     if (default_folder == NULL) {
@@ -117,6 +152,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>rx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
@@ -141,14 +182,13 @@ int server_config_create(struct server_config **config, const char *path) {
             return -ENOMEM;
         }
         result->rx_sdr_server_address = sdr_server_address;
-        setting = config_lookup(&libconfig, "rx_sdr_server_port");
-        int rx_sdr_server_port;
-        if (setting == NULL) {
-            rx_sdr_server_port = 8090;
-        } else {
-            rx_sdr_server_port = config_setting_get_int(setting);
+        code = read_int(&libconfig, "rx_sdr_server_port", 8090, 0, UINT16_MAX, &int_value);
+        if (code != 0) {
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
         }
-        result->rx_sdr_server_port = rx_sdr_server_port;
+        result->rx_sdr_server_port = (int) int_value;
         fprintf(stdout, "sdr server used: %s:%d\n", result->rx_sdr_server_address, result->rx_sdr_server_port);
     }
 
@@ -158,6 +198,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>tx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
@@ -173,7 +219,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR || result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
@@ -205,38 +251,33 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx file base path: %s\n", result->tx_file_base_path);
     }
 
-    setting = config_lookup(&libconfig, "tx_plutosdr_gain");
-    double tx_plutosdr_gain;
-    if (setting == NULL) {
-        tx_plutosdr_gain = 0.0;
-    } else {
-        tx_plutosdr_gain = config_setting_get_float(setting);
+    code = read_float(&libconfig, "tx_plutosdr_gain", 0.0, &result->tx_plutosdr_gain);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->tx_plutosdr_gain = tx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx plutosdr gain %f\n", result->tx_plutosdr_gain);
     }
-    setting = config_lookup(&libconfig, "rx_plutosdr_gain");
-    double rx_plutosdr_gain;
-    if (setting == NULL) {
-        rx_plutosdr_gain = 0.0;
-    } else {
-        rx_plutosdr_gain = config_setting_get_float(setting);
+    code = read_float(&libconfig, "rx_plutosdr_gain", 0.0, &result->rx_plutosdr_gain);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->rx_plutosdr_gain = rx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "rx plutosdr gain %f\n", result->rx_plutosdr_gain);
     }
-    setting = config_lookup(&libconfig, "tx_plutosdr_timeout_millis");
-    unsigned int tx_plutosdr_timeout_millis;
-    if (setting == NULL) {
-        tx_plutosdr_timeout_millis = 10000;
-    } else {
-        tx_plutosdr_timeout_millis = config_setting_get_int(setting);
+    code = read_int(&libconfig, "tx_plutosdr_timeout_millis", 10000, 0, UINT32_MAX, &int_value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->tx_plutosdr_timeout_millis = tx_plutosdr_timeout_millis;
+    result->tx_plutosdr_timeout_millis = (unsigned int) int_value;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx timeout millis %d\n", result->tx_plutosdr_timeout_millis);
-- 
2.43.0


From 8fbe2be1f423bea38f5338eccf8921c19238995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:31 +0000
Subject: [PATCH 16/27] fix: transmit to file was acknowledged even if data was
 not written

---
 src/sdr/file_source.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 599628d..f884fc2 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -139,15 +139,18 @@ int file_source_process_tx(float complex *input, size_t input_len, void *plugin)
         fprintf(stderr, "<3>[%d] tx file was not initialized\n", device->id);
         return -1;
     }
+    float complex *output = input;
+    size_t output_len = input_len;
     if (device->signal != NULL) {
-        float complex *sig_output = NULL;
-        size_t sig_output_len = 0;
-        sig_source_multiply(device->freq_offset, input, input_len, &sig_output, &sig_output_len, device->signal);
-        //ignore actually written
-        fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file);
-    } else {
-        //ignore actually written
-        fwrite(input, sizeof(float complex), input_len, device->tx_file);
+        output = NULL;
+        output_len = 0;
+        sig_source_multiply(device->freq_offset, input, input_len, &output, &output_len, device->signal);
+    }
+    size_t actually_written = fwrite(output, sizeof(float complex), output_len, device->tx_file);
+    // flush, otherwise disk error might be lost after successful response to the client
+    if (actually_written != output_len || fflush(device->tx_file) != 0) {
+        fprintf(stderr, "<3>[%d] unable to write tx file\n", device->id);
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From 7ded1f816df0c7f9da99c7b6b4abb7d2a59540cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:33 +0000
Subject: [PATCH 17/27] fix: shared sdr worker could be used after release when
 client failed to attach to it

---
 src/tcp_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 3ebaa38..93e28d0 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -739,6 +739,9 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
             fprintf(stderr, "<3>[%d] unable to start dsp worker\n", tcp_worker->id);
             shutdown(tcp_worker->client_socket, SHUT_RDWR);
             dsp_worker_destroy(dsp_worker);
+            // other clients don't know that this client uses sdr_worker
+            sdr_worker_destroy_by_dsp_worker_id(tcp_worker->id, tcp_worker->sdr);
+            tcp_worker->sdr = NULL;
         }
     }
     pthread_mutex_unlock(&server->mutex);
-- 
2.43.0


From a1d88d56a665caa899ac55535d624eaa68a9947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:33 +0000
Subject: [PATCH 18/27] fix: documented units of ground station coordinates
 didn't match the code and its clients

---
 api.proto | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api.proto b/api.proto
index 9033bcd..4efb3a5 100644
--- a/api.proto
+++ b/api.proto
@@ -12,9 +12,9 @@ enum demod_destination {
 
 message doppler_settings {
     repeated string tle = 1;
-    required uint32 latitude = 2;  //degrees times 10^6
-    required uint32 longitude = 3;  //degrees times 10^6
-    required uint32 altitude = 4;  //kilometers times 10^6
+    required uint32 latitude = 2;  //degrees times 10^7
+    required uint32 longitude = 3;  //degrees times 10^7
+    required uint32 altitude = 4;  //kilometers times 10^4
 }
 
 message fsk_demodulation_settings {
-- 
2.43.0


From c51919da0e7773b78eafdaa3bafb47b8e961eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:42 +0000
Subject: [PATCH 19/27] fix: signal generator wrote behind its buffer when more
 samples than announced were requested

---
 src/dsp/sig_source.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index ae30c33..2c96614 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -41,6 +41,12 @@ int sig_source_create(float amplitude, uint64_t rx_sampling_freq, uint32_t max_o
 }
 
 void sig_source_process(int64_t freq, size_t expected_output_len, float complex **output, size_t *output_len, sig_source *source) {
+    if (expected_output_len > source->output_len) {
+        fprintf(stderr, "<3>requested buffer %zu is more than max: %u\n", expected_output_len, source->output_len);
+        *output = NULL;
+        *output_len = 0;
+        return;
+    }
     float adjusted_freq = M_2PI * (float) freq / source->rx_sampling_freq;
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
-- 
2.43.0


From 66ef242c7233fbdadefbb5302e4de0b8e330edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:53 +0000
Subject: [PATCH 20/27] fix: PlutoSDR without its control device crashed the
 server

---
 src/sdr/plutosdr.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index c3a935f..df85970 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -192,11 +192,15 @@ static char *plutosdr_format_channel_name(const char *type, int id) {
 }
 
 static struct iio_channel *plutosdr_find_phy_channel(struct iio_context *ctx, enum iio_direction d, const char *channel_name, plutosdr *iio) {
+    struct iio_device *phy_device = iio->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         case RX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, false);
         case TX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, true);
         default:
             return NULL;
     }
@@ -222,18 +226,26 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *chn = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (chn == NULL) {
+            return ret;
+        }
+        ret = pluto->lib->iio_channel_attr_write_bool(chn, "voltage_filter_fir_en", enable);
     }
     return ret;
 }
 
 static struct iio_channel *plutosdr_find_lo_channel(struct iio_context *ctx, enum iio_direction d, plutosdr *pluto) {
+    struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         // LO chan is always output, i.e. true
         case RX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage0", true);
         case TX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage1", true);
         default:
             return NULL;
     }
@@ -343,6 +355,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find phy device\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From 8b964e44ab5bd5a4c43fbfab5f85a341191e3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:49 +0000
Subject: [PATCH 21/27] fix: file device read its recording to the end after it
 had been stopped

---
 src/sdr/file_source.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index f884fc2..e49ad51 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -98,6 +98,15 @@ int file_source_process_rx(float complex **output, size_t *output_len, void *plu
         *output_len = 0;
         return -1;
     }
+    // nobody needs the rest of the file
+    pthread_mutex_lock(&device->mutex);
+    bool running = device->running;
+    pthread_mutex_unlock(&device->mutex);
+    if (!running) {
+        *output = NULL;
+        *output_len = 0;
+        return -1;
+    }
     size_t actually_read = fread(device->output, sizeof(float complex), device->output_len, device->rx_file);
     if (actually_read == 0) {
         // on any error terminate early
-- 
2.43.0


From dbcd48df95f736b2e631509322eb34fb4e07f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:02 +0000
Subject: [PATCH 22/27] fix: client not reading its responses blocked the stop
 of the server

---
 src/tcp_server.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 93e28d0..cf6f915 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -360,6 +360,18 @@ static void tcp_worker_stop(void *arg, void *data) {
     }
 }
 
+static bool tcp_worker_is_responding(void *id, void *data) {
+    struct tcp_worker *worker = (struct tcp_worker *) data;
+    return (worker->tx_req != NULL && worker->client_socket >= 0);
+}
+
+static void tcp_worker_abort(void *arg, void *data) {
+    if (tcp_worker_is_responding(arg, data)) {
+        struct tcp_worker *worker = (struct tcp_worker *) data;
+        shutdown(worker->client_socket, SHUT_RDWR);
+    }
+}
+
 bool tcp_worker_is_txing(void *id, void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     return (worker->tx_device != NULL);
@@ -826,6 +838,16 @@ static void *acceptor_worker(void *arg) {
 
     pthread_mutex_lock(&server->mutex);
     linked_list_foreach(NULL, &tcp_worker_stop, server->tcp_workers);
+    // give tx clients some time to receive the last response
+    // client that doesn't read should not block forever
+    time_t deadline = time(NULL) + server->server_config->read_timeout_seconds;
+    while (linked_list_find(NULL, &tcp_worker_is_responding, server->tcp_workers) != NULL && time(NULL) <= deadline) {
+        pthread_mutex_unlock(&server->mutex);
+        struct timeval pause = {.tv_sec = 0, .tv_usec = 10000};
+        select(0, NULL, NULL, NULL, &pause);
+        pthread_mutex_lock(&server->mutex);
+    }
+    linked_list_foreach(NULL, &tcp_worker_abort, server->tcp_workers);
     pthread_mutex_unlock(&server->mutex);
     linked_list_destroy(server->tcp_workers);
     server->tcp_workers = NULL;
-- 
2.43.0


From 130041e32a25e4ae56fb65ee8bb85c11c9e84211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:24 +0000
Subject: [PATCH 23/27] fix: file session of a client that doesn't read could
 not be ended

---
 src/dsp_worker.c | 4 ++++
 src/dsp_worker.h | 3 +++
 src/tcp_server.c | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index acfac80..1173dc9 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -218,6 +218,10 @@ int dsp_worker_create(uint32_t id, int client_socket, struct server_config *serv
     return 0;
 }
 
+void dsp_worker_interrupt(dsp_worker *worker) {
+    interrupt_waiting_the_data(worker->queue);
+}
+
 void dsp_worker_destroy(void *data) {
     if (data == NULL) {
         return;
diff --git a/src/dsp_worker.h b/src/dsp_worker.h
index e264118..18b03ec 100644
--- a/src/dsp_worker.h
+++ b/src/dsp_worker.h
@@ -17,6 +17,9 @@ bool dsp_worker_find_by_id(void *id, void *data);
 
 void dsp_worker_shutdown(void *arg, void *data);
 
+// client doesn't need more data, do not let the producer wait for it
+void dsp_worker_interrupt(dsp_worker *worker);
+
 void dsp_worker_put(float complex *output, size_t output_len, dsp_worker *worker);
 
 int dsp_worker_create(uint32_t id, int client_socket, struct server_config *config, struct RxRequest *req, dsp_worker **result);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index cf6f915..be47912 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -45,6 +45,7 @@ struct tcp_worker {
     bool client_thread_started;
     tcp_server *server;
     sdr_worker *sdr;
+    dsp_worker *dsp;
 
     uint32_t buffer_size;
     uint8_t *buffer;
@@ -291,6 +292,11 @@ static void tcp_worker_release(struct tcp_worker *worker) {
     sdr_worker *sdr = worker->sdr;
     worker->sdr = NULL;
     pthread_mutex_unlock(&worker->server->mutex);
+    //sdr_worker might be waiting for the slow client
+    if (worker->dsp != NULL) {
+        dsp_worker_interrupt(worker->dsp);
+        worker->dsp = NULL;
+    }
     //terminate dsp_worker if any
     //terminate sdr_worker if no more dsp_workers there
     sdr_worker_destroy_by_dsp_worker_id(worker->id, sdr);
@@ -754,6 +760,8 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
             // other clients don't know that this client uses sdr_worker
             sdr_worker_destroy_by_dsp_worker_id(tcp_worker->id, tcp_worker->sdr);
             tcp_worker->sdr = NULL;
+        } else {
+            tcp_worker->dsp = dsp_worker;
         }
     }
     pthread_mutex_unlock(&server->mutex);
-- 
2.43.0


From 49c611e4da21e9ea400288946246f418e9ffabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:52 +0000
Subject: [PATCH 24/27] fix: response was not sent when there was no memory for
 it

The client had been told nothing: it took demodulated data for the response, or waited for the response forever.
---
 src/api_utils.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index bb6b9df..4f91279 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -86,8 +86,11 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     response.status = status;
     response.details = details;
 
+    // two varints. client should be informed even if there is no memory left
+    uint8_t buffer[sizeof(struct message_header) + 64];
     size_t len = response__get_packed_size(&response);
-    if (len > UINT32_MAX) {
+    size_t buffer_len = sizeof(struct message_header) + len;
+    if (buffer_len > sizeof(buffer)) {
         return -1;
     }
 
@@ -95,18 +98,10 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     header.protocol_version = PROTOCOL_VERSION;
     header.type = TYPE_RESPONSE;
     header.message_length = htonl((uint32_t) len);
-
-    size_t buffer_len = sizeof(struct message_header) + sizeof(uint8_t) * len;
-    uint8_t *buffer = malloc(buffer_len);
-    if (buffer == NULL) {
-        return -ENOMEM;
-    }
     memcpy(buffer, &header, sizeof(struct message_header));
     response__pack(&response, buffer + sizeof(struct message_header));
 
-    int code = tcp_utils_write_data(buffer, buffer_len, socket);
-    free(buffer);
-    return code;
+    return tcp_utils_write_data(buffer, buffer_len, socket);
 }
 
 void api_utils_convert_tle(char **tle, char (*output)[80]) {
-- 
2.43.0


From a8e98b1c98c0eefdbdd781e7fb7879eb0cebab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:00 +0000
Subject: [PATCH 25/27] fix: clients were not disconnected when the stream from
 sdr ended

Client of an upstream server or a device that has failed waited for the data forever. The comment in sdr_worker_callback promised to close all client sockets.
---
 src/dsp_worker.c | 7 +++++++
 src/sdr_worker.c | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 1173dc9..f6761b7 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -13,12 +13,14 @@
 #include "dsp/doppler.h"
 #include <string.h>
 #include <complex.h>
+#include <stdatomic.h>
 #include "tcp_utils.h"
 #include "api_utils.h"
 
 struct dsp_worker_t {
     uint32_t id;
     int client_socket;
+    atomic_bool stream_ended;
     fsk_demod *fsk_demod;
     doppler *dopp;
     queue *queue;
@@ -48,6 +50,7 @@ void dsp_worker_put(float complex *output, size_t output_len, dsp_worker *worker
 
 void dsp_worker_shutdown(void *arg, void *data) {
     dsp_worker *worker = (dsp_worker *) data;
+    worker->stream_ended = true;
     interrupt_waiting_the_data(worker->queue);
 }
 
@@ -113,6 +116,10 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // there will be no more data. let the client know when everything has been sent
+    if (worker->stream_ended) {
+        shutdown(worker->client_socket, SHUT_RDWR);
+    }
     // nobody takes the data anymore, do not let the producer wait for it
     interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index dcdf73e..8a25c9b 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -149,6 +149,11 @@ static bool sdr_worker_is_same(void *id, void *data) {
 
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
+    if (!sdr->is_running) {
+        // stream has ended already
+        pthread_mutex_unlock(&sdr->mutex);
+        return -1;
+    }
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
     // start reading only when there is someone to process the very first buffer
     if (code == 0 && !sdr->sdr_thread_started) {
-- 
2.43.0


From 40708729293cb4d1281bfa0f45a98ce00b877dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:02 +0000
Subject: [PATCH 26/27] fix: a pause inside of a session message header or an
 ignored body broke the framing of the messages after it

---
 src/api_utils.c  |  8 ++++++++
 src/api_utils.h  |  3 +++
 src/tcp_server.c | 12 ++++--------
 src/tcp_utils.c  | 13 +++++++++++++
 src/tcp_utils.h  |  4 ++++
 5 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index 4f91279..200202e 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -15,6 +15,14 @@ int api_utils_read_header(int socket, struct message_header *header) {
     return code;
 }
 
+int api_utils_read_next_header(int socket, struct message_header *header) {
+    int code = tcp_utils_read_data_fully(header, sizeof(struct message_header), socket);
+    if (code == 0) {
+        header->message_length = ntohl(header->message_length);
+    }
+    return code;
+}
+
 int api_utils_read_tx_data(int socket, const struct message_header *header, struct TxData **request) {
     if (header->message_length > MAX_MESSAGE_LENGTH) {
         return -1;
diff --git a/src/api_utils.h b/src/api_utils.h
index 56e07ac..799b7d0 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -9,6 +9,9 @@ extern uint32_t MAX_MESSAGE_LENGTH;
 
 int api_utils_read_header(int socket, struct message_header *header);
 
+// header of the next message inside of the established session. can be sent at any time and in any pieces
+int api_utils_read_next_header(int socket, struct message_header *header);
+
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
 
 int api_utils_read_tx_request(int socket, const struct message_header *header, struct TxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index be47912..549e6bb 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -192,7 +192,7 @@ static int tcp_worker_skip_body(struct tcp_worker *worker, const struct message_
     uint32_t left = header->message_length;
     while (left > 0 && worker->is_running) {
         uint32_t batch = left < sizeof(buffer) ? left : sizeof(buffer);
-        int code = tcp_utils_read_data(buffer, batch, worker->client_socket);
+        int code = tcp_utils_read_data_fully(buffer, batch, worker->client_socket);
         if (code != 0) {
             return code;
         }
@@ -319,13 +319,9 @@ static void *tcp_worker_callback(void *arg) {
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
     while (worker->is_running) {
         struct message_header header;
-        int code = api_utils_read_header(worker->client_socket, &header);
-        if (code < -1) {
-            // read timeout happened. it's ok.
-            // client already sent all information we need
-            continue;
-        }
-        if (code == -1) {
+        // client might send the next message any time later
+        int code = api_utils_read_next_header(worker->client_socket, &header);
+        if (code != 0) {
             fprintf(stdout, "[%d] client disconnected\n", id);
             break;
         }
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 56ddefe..1083ae6 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -53,6 +53,19 @@ int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket) {
     return tcp_utils_read_data_partially(result, len_bytes, &actually_read, client_socket);
 }
 
+int tcp_utils_read_data_fully(void *result, size_t len_bytes, int client_socket) {
+    size_t total_read = 0;
+    while (total_read < len_bytes) {
+        size_t actually_read = 0;
+        int code = tcp_utils_read_data_partially((char *) result + total_read, len_bytes - total_read, &actually_read, client_socket);
+        if (code == -1) {
+            return code;
+        }
+        total_read += actually_read;
+    }
+    return 0;
+}
+
 int tcp_utils_read_data_within_timeout(void *result, size_t len_bytes, int client_socket) {
     struct timeval timeout = {0};
     socklen_t timeout_len = sizeof(timeout);
diff --git a/src/tcp_utils.h b/src/tcp_utils.h
index 39367ad..a6f1e71 100644
--- a/src/tcp_utils.h
+++ b/src/tcp_utils.h
@@ -11,6 +11,10 @@ int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket);
 // same as tcp_utils_read_data, but the receive timeout of the socket limits the whole read
 int tcp_utils_read_data_within_timeout(void *result, size_t len_bytes, int client_socket);
 
+// same as tcp_utils_read_data, but the receive timeout of the socket doesn't end the read.
+// it ends when the socket is closed or shut down
+int tcp_utils_read_data_fully(void *result, size_t len_bytes, int client_socket);
+
 int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actually_read, int client_socket);
 
 #endif //SDR_MODEM_TCP_UTILS_H
-- 
2.43.0


From f51e09ffa1a7e49e883198dfbb02cde953b820fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:00 +0000
Subject: [PATCH 27/27] fix: second stop signal killed server which was
 stopping gracefully

---
 src/main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index da25038..a294ea2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -37,9 +37,15 @@ int main(int argc, char **argv) {
 	sigaddset(&stop_signals, SIGTERM);
 	sigprocmask(SIG_BLOCK, &stop_signals, NULL);
 
-	signal(SIGINT, sdrmodem_stop_async);
-	signal(SIGHUP, sdrmodem_stop_async);
-	signal(SIGTERM, sdrmodem_stop_async);
+	// in strict c99 "signal" installs the handler only for the first signal
+	// the second one should not kill server which is stopping gracefully
+	struct sigaction stop_action = {0};
+	stop_action.sa_handler = sdrmodem_stop_async;
+	stop_action.sa_mask = stop_signals;
+	stop_action.sa_flags = SA_RESTART;
+	sigaction(SIGINT, &stop_action, NULL);
+	sigaction(SIGHUP, &stop_action, NULL);
+	sigaction(SIGTERM, &stop_action, NULL);
     signal(SIGPIPE, SIG_IGN);
 
 	code = tcp_server_create(server_config, &server);
-- 
2.43.0

