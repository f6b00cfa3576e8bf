From 4666d0f660539058448981c203aadf0e2a7f215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 01/18] fix: keep float32 data when normalising a TimeSeries
 in-place

---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 50a3b10c5a8a03c15dad298ff671401aaa3f5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 02/18] fix: update metadata tobs when downsampling a
 TimeSeries in-place

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From c618267fe6e602eaf0a05290536e4abdf29f16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 03/18] fix: return writable arrays from JSON loading

---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..3d21c5e 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: frombuffer() returns a read-only view, hence the copy
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From 6679709b352079aba8c73fcd4c092b8aa726859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 04/18] fix: allocate the S/N prefix sum buffer on the heap

---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..7af12d5 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: allocated on the heap, large profiles would overflow the stack
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From eeddadcc364fa5f9ed70e5e1fe31a850d4af2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 05/18] fix: size the circular_prefix_sum output by the number
 of summed elements

---
 riptide/cpp/python_bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..00a657e 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,11 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    if (size == 0)
+    {
+        throw std::invalid_argument("Input array must not be empty");
+    }
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From d69d5a78fb68fd89546eaf17e19464291e3f0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 06/18] fix: check trial widths before computing a periodogram

---
 riptide/cpp/python_bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 00a657e..d52a3f3 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -197,6 +197,8 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     auto widths = arr_widths.unchecked<1>();
     size_t num_widths = widths.size();
 
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
+
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
 
     auto periods = new_cstyle_array<double>({length});
-- 
2.43.0


From f4be1894b1557ad14b7f3a646f2663d6f69f8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 07/18] fix: refuse empty shapes in benchmark_ffa2

---
 riptide/cpp/python_bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index d52a3f3..c13819c 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -102,6 +102,10 @@ py::array_t<float> ffa2(py::array_t<float> arr_input)
 /* Benchmark the ffa2() function. Returns the time per loop in seconds */
 double benchmark_ffa2(size_t rows, size_t cols, size_t loops)
 {
+    if (rows == 0 || cols == 0)
+    {
+        throw std::invalid_argument("rows and cols must be > 0");
+    }
     const size_t size = rows * cols;
 
     // NOTE: performance slightly increases when all buffers are contiguous
-- 
2.43.0


From 25f888d091b6fb279127dcd83da71f3ca752b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 08/18] fix: parse rseek --rmed_minpts as an integer

---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From 0d2c2c3ee20d2786811256fb14e7b14915d45718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 09/18] fix: reject a null clrad, which find_peaks cannot
 handle

---
 riptide/pipeline/config_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..fbfa1ee 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -42,8 +42,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             int, strictly_positive, error="minseg must be an int > 0"),
         Optional('polydeg'): And(
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
-        Optional('clrad'): Or(
-            And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
+        Optional('clrad'): And(
+            Use(float), strictly_positive, error="clrad must be a number > 0"),
         },
 
     'candidates': {
-- 
2.43.0


From b5e5cef8e416a5ca106de4341c137c11c74bb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 10/18] fix: require an integer rmed_minpts in the pipeline
 configuration

---
 riptide/pipeline/config_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index fbfa1ee..ae7c589 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -81,7 +81,7 @@ PIPELINE_CONFIG_SCHEMA = Schema({
 
     'dereddening': {
         'rmed_width': Schema(strictly_positive, error="rmed_width must be a number > 0"),
-        'rmed_minpts': Schema(strictly_positive, error="rmed_minpts must be a number > 0")
+        'rmed_minpts': And(int, strictly_positive, error="rmed_minpts must be an int > 0")
         },
 
     'ranges': [SEARCH_RANGE_SCHEMA],
-- 
2.43.0


From 5a17454992f978ab96c15f37275fee7a257cbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 11/18] fix: accept null candidates.subints as documented

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index ae7c589..e1f8967 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From 06a992898253e60b959131f5f62b32a2cc96ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 12/18] fix: plot candidates that have a single sub-integration

---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..98ece51 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # NOTE: a Candidate folded with a single sub-integration is one-dimensional
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From c586b0819771e6f86d96edc96f27db80d7193b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 13/18] fix: do not mix the results of successive Pipeline runs

---
 riptide/pipeline/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..1c2c5b8 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -381,6 +381,12 @@ class Pipeline(object):
 
     @timing
     def process(self, files, outdir):
+        # Forget the results of any previous run
+        self.peaks = []
+        self.clusters = []
+        self.clusters_filtered = []
+        self.candidates = []
+
         self.prepare(files)
         self.search()
         self.cluster_peaks()
-- 
2.43.0


From 96f1d8fda9893b64d6aa8a3bfa199fcb1419cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 14/18] fix: return the requested number of sub-integrations
 when folding

---
 riptide/folding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..8168aaa 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -78,4 +78,7 @@ def fold(ts, period, bins, subints=None):
     else:
         # vertical downsampling factor
         vf = m / subints
+        # Rounding errors in the division can make the output one line short
+        if int(m / vf) < subints:
+            vf = np.nextafter(vf, 0.0)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From 60dcf08d59f590f9f809337f7c447fb2c1ab5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 15/18] fix: variance after downsampling by an integer factor

downsampled_variance() squared the number of fully covered input samples,
so the noise level was overestimated (and S/N underestimated) whenever the
downsampling factor was an integer larger than 2.
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..541aa53 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From 6c54a5e8a09700664c86b82be9b9599a68d205aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 16/18] fix: searching up to a period far beyond the data
 length raised

The downsampling loop of periodogram() called downsample() with a factor
larger than the number of samples instead of stopping at the maximum
allowable trial period, as documented.
---
 riptide/cpp/periodogram.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..b89f8d1 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -89,6 +89,10 @@ size_t periodogram_length(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Data too short to fold once, and getting shorter: maximum trial period reached
+        if (n < bins_min)
+            break;
+
         // Min and max number of bins with which to FFA transform in order to
         // cover all trial periods between period_min and period_max.
         // NOTE: bstop is INclusive
@@ -157,6 +161,10 @@ void periodogram(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Data too short to fold once, and getting shorter: maximum trial period reached
+        if (n < bins_min)
+            break;
+
         // downsample() requires f > 1, but we still allow searching the data at their
         // original resolution.
         if (f == 1) {
-- 
2.43.0


From 78220d1610ee104ae919f566f95a3a43ae8270c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 17/18] fix: empty list of trial widths read out of bounds

periodogram() with no trial widths took the maximum of an empty range.
---
 riptide/cpp/snr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7af12d5..7317e63 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -18,10 +18,10 @@ void check_stdnoise(float stdnoise)
         throw std::invalid_argument("stdnoise must be > 0");
     }
 
-// Check that all trial widths are > 0 and < bins; throw std::invalid_argument if that is not the case
+// Check that there is at least one trial width, and that they are all > 0 and < bins; throw std::invalid_argument if that is not the case
 void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
     {
-    bool b = std::all_of(
+    bool b = (num_widths > 0) && std::all_of(
         widths, 
         widths + num_widths, 
         [bins](size_t w){return (w > 0) & (w < bins);}
-- 
2.43.0


From e2d1e6e93cfea88748a3ef3d9294fd370cef913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 18/18] fix: transform of more than 2^24 rows read out of
 bounds

merge() selected rows in single precision, which cannot represent row
indices beyond 2^24: rows past the end of each half were read.
---
 riptide/cpp/transforms.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptide/cpp/transforms.hpp b/riptide/cpp/transforms.hpp
index e093242..c64b135 100644
--- a/riptide/cpp/transforms.hpp
+++ b/riptide/cpp/transforms.hpp
@@ -14,13 +14,14 @@ void merge(ConstBlock thead, ConstBlock ttail, Block out)
     {
     const size_t m = out.rows;
     const size_t p = out.cols;
-    const float kh = (thead.rows - 1.0f) / (m - 1.0f);
-    const float kt = (ttail.rows - 1.0f) / (m - 1.0f);
+    // NOTE: double precision, floats cannot index more than 2^24 rows
+    const double kh = (thead.rows - 1.0) / (m - 1.0);
+    const double kt = (ttail.rows - 1.0) / (m - 1.0);
 
     for (size_t s = 0; s < m; ++s)
         {
-        const size_t h = kh * s + 0.5f;
-        const size_t t = kt * s + 0.5f;
+        const size_t h = kh * s + 0.5;
+        const size_t t = kt * s + 0.5;
         const size_t b = s - (h + t);
         fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
         }
-- 
2.43.0

