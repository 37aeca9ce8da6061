From f2a51d1cab2353466321959436fd842a67febbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 01/62] fix: do not copy the first microphone sample over the
 whole pre-history buffer

Propagator.prepare added the propagated initial sample(s) to all sim_buffer
samples before time 0. With start_sources_before_0 False only one sample is
generated, so it was broadcast over the silent pre-history.
---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From 5c620922336848d4b9bb6d10cf402bccaa1990ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 02/62] fix: export recordings whose export time is after their
 last recording interval

---
 src/aspsim/diagnostics/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..a1e01c1 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -109,7 +109,10 @@ class Logger:
     def export_this_idx(self):
         diag_names = []
         for dg_name, dg in self.diagnostics.items():
-            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
+            # all relevant data have been saved, either because the export time has been reached, or
+            # because no more data will be saved before the export time
+            available_until = max(dg.save_at.saved_until, dg.next_save()[0])
+            if np.isfinite(dg.next_export()) and dg.next_export() <= available_until:
                 assert dg_name not in diag_names
                 diag_names.append(dg_name)
         return diag_names
-- 
2.43.0


From 941c5ec19f67e90f64d5d06aa93fb7763bec54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 03/62] fix: do not export states saved after the export time
 when no earlier state exists

---
 src/aspsim/diagnostics/core.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index a1e01c1..29b8073 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -530,11 +530,7 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
-
-    time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    before_max_idx = time_indices < max_idx
+    time_indices = time_indices[before_max_idx]
+    signal = signal[:,before_max_idx]
     return signal, time_indices
-- 
2.43.0


From bbd150a42657940d4debae0937c2d1a3fc10c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 04/62] fix: RecordState records and exports matrix and tensor
 valued states

---
 src/aspsim/diagnostics/core.py        | 7 +++----
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 29b8073..e8d9d2f 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -517,14 +517,13 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
@@ -532,5 +531,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
 
     before_max_idx = time_indices < max_idx
     time_indices = time_indices[before_max_idx]
-    signal = signal[:,before_max_idx]
+    signal = signal[...,before_max_idx]
     return signal, time_indices
diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..88dea99 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From f932551fc8adfb4b7774a4ebcc8b2800c46c0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 05/62] fix: StatePower uses the save frequency and export
 times it is given

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 88dea99..a33265a 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From fe251d4ecede619cbf0ebe9d0d88560bb4d12c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 06/62] fix: SoundfieldPower works without a processor

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index a33265a..409a067 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From 830c5d9626fb24720f1827a87299ffdfe08bea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 07/62] fix: do not restart the smoothing of SignalPowerRatio
 at every buffer boundary

---
 src/aspsim/diagnostics/diagnostics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 409a067..7435c02 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,14 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        # kept between saves, since the recorded interval can be split into multiple saves
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 6a22644eb7433e2039ee1cb3b7225e6e28d0fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 08/62] fix: summary diagnostics follow the current interface
 of Diagnostic

---
 src/aspsim/diagnostics/diagnosticsummary.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnosticsummary.py b/src/aspsim/diagnostics/diagnosticsummary.py
index 084364e..eb1f81a 100644
--- a/src/aspsim/diagnostics/diagnosticsummary.py
+++ b/src/aspsim/diagnostics/diagnosticsummary.py
@@ -48,7 +48,6 @@ class SummaryDiagnostic(diacore.Diagnostic):
     def __init__ (
         self,
         sim_info,
-        block_size,
         save_at,
         export_func = "text",
         keep_only_last_export = False,
@@ -66,7 +65,7 @@ class SummaryDiagnostic(diacore.Diagnostic):
             export_at = [save_at[1]]
             save_at = diacore.IntervalCounter(((save_at[0], save_at[1]),))
 
-        super().__init__(sim_info, block_size, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
+        super().__init__(sim_info, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
 
 
 
@@ -86,7 +85,7 @@ class SignalPowerRatioSummary(SummaryDiagnostic):
         ):
         self.save_range = save_range
         self.num_samples = save_range[1] - save_range[0]
-        super().__init__(sim_info, block_size, save_range, **kwargs)
+        super().__init__(sim_info, save_range, **kwargs)
         self.numerator_name = numerator_name
         self.denom_name = denom_name
         self.num_power = 0
@@ -98,8 +97,8 @@ class SignalPowerRatioSummary(SummaryDiagnostic):
         self.plot_data["title"] = f"Ratio of power: {self.numerator_name} / {self.denom_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.num_power += np.sum(np.mean(np.abs(processor.sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
-        self.denom_power += np.sum(np.mean(np.abs(processor.sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
+        self.num_power += np.sum(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.denom_power += np.sum(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -121,7 +120,7 @@ class SignalPowerSummary(SummaryDiagnostic):
         """
         self.save_range = save_range
         self.num_samples = save_range[1] - save_range[0]
-        super().__init__(sim_info, block_size, save_range, **kwargs)
+        super().__init__(sim_info, save_range, **kwargs)
         self.sig_name = sig_name
         self.power = 0
 
@@ -130,7 +129,7 @@ class SignalPowerSummary(SummaryDiagnostic):
         #self.plot_data["title"] = f"Power of {self.sig_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power += np.sum(np.mean(np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.power += np.sum(np.mean(np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -154,7 +153,7 @@ class SignalPowerSpectrum(SummaryDiagnostic):
         """
         self.save_range = save_range
         self.num_samples = save_range[1] - save_range[0]
-        super().__init__(sim_info, block_size, save_range, export_func = "spectrum", **kwargs)
+        super().__init__(sim_info, save_range, export_func = "spectrum", **kwargs)
         self.sig_name = sig_name
         self.power = 0
 
@@ -169,7 +168,7 @@ class SignalPowerSpectrum(SummaryDiagnostic):
         
     def save(self, processor, sig, chunkInterval, globInterval):
         num_samples = chunkInterval[1] - chunkInterval[0]
-        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
+        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
 
         self.sample_counter += num_samples
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
-- 
2.43.0


From 3da4e5ecc746e250e2f2ca948abd2ecc79b1ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 09/62] fix: arrays can be drawn in sound field figures

---
 src/aspsim/array.py            | 4 ++--
 src/aspsim/diagnostics/plot.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..05d91b6 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -549,7 +549,7 @@ class Array(ABC):
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         if self.dynamic:
             self.trajectory.plot(ax, self.plot_symbol, self.name, sim_info.tot_samples)
         else:
@@ -614,7 +614,7 @@ class RegionArray(MicArray):
         self.region = region
         self.metadata["region shape"] = self.region.__class__.__name__
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         self.region.plot(ax, self.name)
         
 class ControllableSourceArray(Array):
diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..c95ed1b 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -251,7 +251,7 @@ def soundfield(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
         if diag.plot_arrays is not None:
             for plot_ar in diag.plot_arrays:
-                plot_ar.plot(ax)
+                plot_ar.plot(ax, diag.sim_info)
         legend_without_duplicates(ax, "upper right")
 
     output_plot(print_method, folder, f"{name}_{time_idx}")
-- 
2.43.0


From f75c90d435b08d09a111a85af94e2b0b756cd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 10/62] fix: moving microphones without any source in the
 simulation

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 05d91b6..f303d09 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -306,7 +306,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[self.names_src[-1]][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 5093acaea0615cad0414e8a3b37a44154abfc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 11/62] fix: circular trajectories with less than 1000 samples
 per period can be drawn

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..e1bf183 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(max_samples // approx_num_points, 1)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From 2dc382fc55c56a706ddccb7b58f31ddbb6f2a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 12/62] fix: constant time trajectories return to the first
 point after exactly one period

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index e1bf183..dbf9683 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 9581b9926f0fd4064bedb1c06214a35102ce0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 13/62] fix: moving arrays keep their speed of sound and extra
 delay when another simulation is created

---
 src/aspsim/room/roomimpulseresponse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..bb0df17 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -93,11 +93,11 @@ class PathGenerator:
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-        frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
-        pra.constants.set("frac_delay_length",frac_dly_len)
+        self.c = sim_info.c
+        self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
-        if frac_dly_len < 20:
-            print("WARNING: fractional delay length: ",frac_dly_len)
+        if self.frac_dly_len < 20:
+            print("WARNING: fractional delay length: ",self.frac_dly_len)
 
 
 
@@ -131,6 +131,9 @@ class PathGenerator:
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                # the constants are global, so another simulation can have changed them
+                pra.constants.set("c", self.c)
+                pra.constants.set("frac_delay_length", self.frac_dly_len)
                 path = ir_room_image_source_3d(
                         src.pos, 
                         mic.pos, 
-- 
2.43.0


From 18dce6e4de44f9bf9c4d1d3f7edb5fd155b0471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 14/62] fix: Sequence plays its last sample, scales the audio
 and can end with zeros in all end modes

---
 src/aspsim/signal/sources.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..807782b 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -80,14 +80,15 @@ class Sequence(Source):
                 self.current_sample = (self.current_sample + block_len) % self.tot_samples
                 i += block_len
         elif self.end_mode == "zeros":
-            raise NotImplementedError
+            samples_to_play = min(num_samples, self.tot_samples - self.current_sample)
+            sig[:,:samples_to_play] = self.audio[:,self.current_sample:self.current_sample+samples_to_play]
+            self.current_sample += samples_to_play
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
-            sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
+            sig[...] = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 1fe99c4d0c571038102d74ed771adbc825c4a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 15/62] fix: multichannel filtered noise sources do not depend
 on the block sizes

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 807782b..1033ad4 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -233,7 +233,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -382,7 +382,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From b27f9814c1a49a648ef6c8b29031f6d4285890f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 16/62] fix: AutocorrSource initializes each channel with noise
 of its own power

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1033ad4..30c20f0 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -378,8 +378,7 @@ class AutocorrSource(Source):
         self.prepare()
 
     def prepare(self):
-        for ch_idx in range(self.num_channels):
-            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
+        self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(max(self.filt.order), self.num_channels)).T)
     
     def get_samples(self, num_samples):
         return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
-- 
2.43.0


From 2c71fed361e0cb63159cd09400b0506fe7d33e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 17/62] fix: BandlimitedNoiseSource starts with noise of the
 requested power

---
 src/aspsim/signal/sources.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 30c20f0..b6ffc7e 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -219,12 +219,11 @@ class BandlimitedNoiseSource(Source):
         wp = [freq for freq in freqLim]
         self.filtCoef = spsig.butter(16, wp, btype="bandpass", output="sos", fs=samplerate)
 
-        testSig = spsig.sosfilt(self.filtCoef, self.rng.normal(size=(self.num_channels,10000)))
+        testSig, zi = spsig.sosfilt(self.filtCoef, self.rng.normal(size=(self.num_channels,10000)),
+                                    zi=np.zeros((self.filtCoef.shape[0], self.num_channels, 2)), axis=-1)
         self.testSigPow = np.mean(testSig ** 2)
         self.set_power(power)
-
-        self.zi = spsig.sosfilt_zi(self.filtCoef)
-        self.zi = np.tile(np.expand_dims(self.zi,1), (1,self.num_channels,1))
+        self.zi = self.amplitude * zi
 
         if isinstance(self.power, (np.ndarray)):
             self.metadata["power"] = self.power.tolist()
-- 
2.43.0


From e55c3c62291c61eb63573b380f6e35eb4d2bc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 18/62] fix: MLS starts from the given state

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index b6ffc7e..4ee0e7a 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -401,11 +401,11 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-        self.metadata["start state"] = self.state
+        self.metadata["start state"] = None if state is None else np.asarray(state).tolist()
 
     def get_samples(self, num_samples):
         seq, self.state = spsig.max_len_seq(
-- 
2.43.0


From 67cc5b9aba7be3d825e37a171dbfe331d2f24a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 19/62] fix: Counter and MLS return one row per channel

---
 src/aspsim/signal/sources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 4ee0e7a..6497782 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -164,7 +164,7 @@ class Counter(Source):
     def get_samples(self, num_samples):
         values = np.arange(self.current_number, self.current_number+num_samples)
         self.current_number += num_samples
-        return values
+        return values[None,:]
 
 
 
@@ -411,7 +411,8 @@ class MLS(Source):
         seq, self.state = spsig.max_len_seq(
             self.order, state=self.state, length=num_samples, taps=self.poly
         )
-        return seq * 2 - 1
+        # scipy provides 0 and 1 as int8 values
+        return seq[None,:].astype(float) * 2 - 1
 
 
 class GoldSequenceSource(Source):
-- 
2.43.0


From a81ed33dbd90e41f08e611d92ba4a4f06ae427bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 20/62] fix: Gold sequences of order 10 and of orders above 11

---
 src/aspsim/signal/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 6497782..a6c356b 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -422,7 +422,7 @@ class GoldSequenceSource(Source):
         7: [[4], [4, 5, 6]],
         8: [[1, 2, 3, 6, 7], [1, 2, 7]],
         9: [[5], [3, 5, 6]],
-        10: [[2, 5, 9], [3, 4, 6, 8, 9]],
+        10: [[7], [2, 7, 8]],
         11: [[9], [3, 6, 9]],
     }
 
@@ -450,10 +450,10 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
-            seq2 = np.copy(seq1[decimatedIndices])
+            seq2 = np.copy(seq1[:, decimatedIndices])
 
         self.sequences = np.zeros((num_channels, self.seqLength))
         for i in range(num_channels):
-- 
2.43.0


From ad67cd2ba922e73a2b3155e1b31e498cfbab2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 21/62] fix: the phase is None after all finite phases of a
 PhaseCounter

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..cb1a506 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From 5bb3f6e3cc4b3710d8b4040b27adb6b998851cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 22/62] fix: get_multiple_unique_folder_names does not return
 existing names

---
 src/aspsim/fileutilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..c3d1a06 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -48,8 +48,12 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     base_name = sub_folder_name[:-start_idx_len]
 
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    idx = start_idx
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(idx))
+        if not folder_name.exists():
+            folder_names.append(folder_name)
+        idx += 1
 
     return folder_names
 
-- 
2.43.0


From 8b2b7506ec1d474ab4f46dfe8603bb668b2ea602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 23/62] fix: get_highest_numbered_file only returns files that
 exist

---
 src/aspsim/fileutilities.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index c3d1a06..c7fed60 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -60,21 +60,18 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
 
 def get_highest_numbered_file(folder, prefix, suffix):
     highest_file_idx = -1
+    highest_file = None
     for file_path in folder.iterdir():
         if file_path.name.startswith(prefix) and file_path.name.endswith(suffix):
             summary_idx = file_path.name[len(prefix) : len(file_path.name) - len(suffix)]
-            try:
-                summary_idx = int(summary_idx)
-                if summary_idx > highest_file_idx:
-                    highest_file_idx = summary_idx
-            except ValueError:
+            if summary_idx.isdecimal():
+                if int(summary_idx) > highest_file_idx:
+                    highest_file_idx = int(summary_idx)
+                    highest_file = file_path
+            else:
                 print("Warning: check prefix and suffix")
 
-    if highest_file_idx == -1:
-        return None
-    else:
-        fname = prefix + str(highest_file_idx) + suffix
-        return folder.joinpath(fname)
+    return highest_file
 
 
 def find_all_earlier_files(
-- 
2.43.0


From 7e14c9fa204472a782f1d0c53bb064eb4ed1cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 24/62] fix: points outside the plane of a Rectangle or Disc do
 not affect the other points

---
 src/aspsim/room/region.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..a4aa164 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -201,13 +201,14 @@ class Rectangle(Region):
             True if the coordinate is within the region, False otherwise.
         """
         if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
+            is_in_plane = np.isclose(coordinates[:,2], self.center[2])
+        else:
+            is_in_plane = np.ones(coordinates.shape[0], dtype=bool)
 
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
-        return is_in
+        return np.logical_and(is_in, is_in_plane)
 
     def equally_spaced_points(self):
         """Returns a grid of points within the region
@@ -271,13 +272,14 @@ class Disc(Region):
 
     def is_in_region(self, coordinates):
         if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
+            is_in_plane = np.isclose(coordinates[:,2], self.center[2])
+        else:
+            is_in_plane = np.ones(coordinates.shape[0], dtype=bool)
 
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
-        return is_in
+        return np.logical_and(is_in, is_in_plane)
 
     def equally_spaced_points(self):
         point_dist = self.point_spacing
-- 
2.43.0


From c22293cdc3b2056521df36c926a1c656770d505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 25/62] fix: CombinedRegion can tell which points are in the
 region

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index a4aa164..a031cd4 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.any([reg.is_in_region(coordinate) for reg in self.regions], axis=0)
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From 824ca5515c8fdf60579655d53c0d9cdd1568fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 26/62] fix: CombinedRegion samples each region in proportion
 to its volume

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index a031cd4..482406d 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From 91821e8ce86e7727da8d8f45a1c48bffefc1443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 27/62] fix: RegionArray has one segment for each region of a
 CombinedRegion

---
 src/aspsim/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index f303d09..67eaaa3 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -606,6 +606,8 @@ class RegionArray(MicArray):
             else:
                 self.region_segments = region
                 region = region[0]
+        elif isinstance(region, reg.CombinedRegion):
+            self.region_segments = region.regions
         else:
             self.region_segments = [region]
 
-- 
2.43.0


From 165561e5891228b40b8d5c20f54c209181bf0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 28/62] fix: equidistant_rectangle returns all points in order
 along the edge

---
 src/aspsim/room/generatepoints.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..ae4b9d6 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -189,36 +189,35 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
 
     points = np.zeros((num_points, 2))
     breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
+    pos_on_circumference = np.mod(pos_on_circumference, breakpoints[-1])
     idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
     
-    points = []
     pos_side = pos_on_circumference[idxs[0]] - breakpoints[0] - x_extent[1]
     pos_fixed = np.full(num_points, fixed_side[0])
     pos_fixed[np.arange(num_points) % 2 == 1] += extra_side_lengths[1] / 2
     pos_fixed = pos_fixed[idxs[0]]
-    points.append(np.stack([pos_side, pos_fixed], axis=-1))
+    points[idxs[0],:] = np.stack([pos_side, pos_fixed], axis=-1)
 
     pos_side = pos_on_circumference[idxs[1]] - breakpoints[1] - y_extent[1]
     pos_side = -pos_side
     pos_fixed = np.full(num_points, fixed_side[1])
     pos_fixed[np.arange(num_points) % 2 == 1] += extra_side_lengths[0] / 2
     pos_fixed = pos_fixed[idxs[1]]
-    points.append(np.stack([pos_fixed, pos_side], axis=-1))
+    points[idxs[1],:] = np.stack([pos_fixed, pos_side], axis=-1)
 
-    pos_side = np.flip(pos_on_circumference[idxs[2]]) - breakpoints[2] - x_extent[1]
+    pos_side = pos_on_circumference[idxs[2]] - breakpoints[2] - x_extent[1]
     pos_side = -pos_side
     pos_fixed = np.full(num_points, fixed_side[2])
     pos_fixed[np.arange(num_points) % 2 == 1] -= extra_side_lengths[1] / 2
     pos_fixed = pos_fixed[idxs[2]]
-    points.append(np.stack([pos_side, pos_fixed], axis=-1))
+    points[idxs[2],:] = np.stack([pos_side, pos_fixed], axis=-1)
 
     pos_side = pos_on_circumference[idxs[3]] - breakpoints[3] - y_extent[1]
     pos_fixed = np.full(num_points, fixed_side[3])
     pos_fixed[np.arange(num_points) % 2 == 1] -= extra_side_lengths[0] / 2
     pos_fixed = pos_fixed[idxs[3]]
-    points.append(np.stack([pos_fixed, pos_side], axis=-1))
+    points[idxs[3],:] = np.stack([pos_fixed, pos_side], axis=-1)
 
-    points = np.concatenate(points, axis=0)
     if z is not None:
         points = np.concatenate((points, np.full((points.shape[0], 1), z)), axis=-1)
     return points
-- 
2.43.0


From 3f18574eda9dc4e8e85891dedb77d6353d7c4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 29/62] fix: uniform_cylinder returns the requested number of
 points, randomly rotated in each plane

---
 src/aspsim/room/generatepoints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index ae4b9d6..398ed97 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -273,15 +273,15 @@ def uniform_cylinder(num_points, radius, height):
     zVals = np.linspace(-height / 2, height / 2, numPlanes + 2)
     zVals = zVals[1:-1]
 
-    pointsPerPlane = num_points // numPlanes
-    allPoints = np.zeros((pointsPerPlane * numPlanes, 3))
+    planeIdxs = np.array_split(np.arange(num_points), numPlanes)
+    allPoints = np.zeros((num_points, 3))
 
     for n in range(numPlanes):
         xyPoints = sunflower_pattern(
-            pointsPerPlane, radius, np.random.rand() * 2 * np.pi
+            len(planeIdxs[n]), radius, np.random.rand() * 2 * np.pi
         )
-        allPoints[n * pointsPerPlane : (n + 1) * pointsPerPlane :, 0:2] = xyPoints
-        allPoints[n * pointsPerPlane : (n + 1) * pointsPerPlane, 2] = zVals[n]
+        allPoints[planeIdxs[n], 0:2] = xyPoints
+        allPoints[planeIdxs[n], 2] = zVals[n]
     return allPoints
 
 
@@ -294,7 +294,7 @@ def sunflower_pattern(N, radius, offset_angle=0):
     # golden ratio
     k = np.arange(1, N + 1)
     r = radius * np.sqrt(k - (1 / 2)) / np.sqrt(N - 1 / 2)
-    theta = k * 2 * np.pi / phisq
+    theta = offset_angle + k * 2 * np.pi / phisq
     [x, y] = pol2cart(r, theta)
     return np.stack((x, y)).T
 
-- 
2.43.0


From 6e871ad34a107ff64a09d9a3ff82837ccab695f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 30/62] fix: impulse responses can be set up when an array has
 no elements

---
 src/aspsim/room/roomimpulseresponse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index bb0df17..29f03f0 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -89,6 +89,8 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
+            if src.num == 0 or mic.num == 0:
+                continue
             shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
-- 
2.43.0


From 4be7ee6e26b7c3fcb961731bec54ffd248c03c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 31/62] fix: a saved session only matches if positions and user
 paths are equal, other shapes do not match

---
 src/aspsim/array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 67eaaa3..9cc678d 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -445,16 +445,16 @@ def prototype_equals(prototype, initialized):
             return False
         if ar.num != initialized[ar_name].num:
             return False
-        if not np.allclose(ar.pos,initialized[ar_name].pos):
+        if not np.array_equal(ar.pos, initialized[ar_name].pos):
             return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-        if prototype.path_type[src.name][mic.name] == "modified":
-            if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
-                return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
             return False
+        if prototype.path_type[src.name][mic.name] == "modified":
+            if not np.array_equal(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
+                return False
 
     return True
 
-- 
2.43.0


From d5891c5e4bcbabdd1389e9952f57304a1a8eb6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 32/62] fix: sessions with another highpass cutoff or length of
 random paths do not match

---
 src/aspsim/configutil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..2b323b8 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,8 +63,12 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.highpass_cutoff == info2.highpass_cutoff
     
+    if any("random" in src_path_types.values() for src_path_types in path_types.values()):
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
+
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
             info1.room_size == info2.room_size and \
@@ -72,7 +76,6 @@ def equal_audio(info1, info2, path_types):
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 45742539a05c41c986f3f08118add9e4d9a62404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 33/62] fix: only the impulse responses are loaded from a
 matching session, not its arrays and settings

---
 src/aspsim/array.py           | 18 ++++++++++++++++++
 src/aspsim/saveloadsession.py |  6 ++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 9cc678d..5d94712 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -260,6 +260,24 @@ class ArrayCollection():
                 for key, val in path_info.items():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
+    def load_ir(self, sim_info, loaded_arrays):
+        """Takes over the impulse responses of another collection instead of generating them
+
+        Parameters
+        ----------
+        sim_info : SimInfo
+            The simulation info object
+        loaded_arrays : ArrayCollection
+            The collection with initialized paths. It must match this
+            collection, see prototype_equals
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        self.path_info = loaded_arrays.path_info
+
+        for src, mic in self.mic_src_combos():
+            if self.path_type[src.name][mic.name] != "modified":
+                self.paths[src.name][mic.name] = loaded_arrays.paths[src.name][mic.name]
 
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..7da167d 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -24,10 +24,8 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    chosen_arrays.load_ir(chosen_sim_info, loaded_arrays)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 4034c1d2bdf4c38721966806a8f5c12ca90857f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 34/62] fix: unreadable folders among the sessions are skipped

---
 src/aspsim/saveloadsession.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 7da167d..67f6190 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -47,11 +47,16 @@ class MatchingSessionNotFoundError(ValueError): pass
 def search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays):
     for dir_path in sessions_path.iterdir():
         if dir_path.is_dir():
-            loaded_sim_info = configutil.load_from_file(dir_path)
-            loaded_arrays = ar.load_arrays(dir_path)
-
-            if configutil.equal_audio(chosen_sim_info, loaded_sim_info, chosen_arrays.path_type) and \
-                ar.prototype_equals(chosen_arrays, loaded_arrays):
+            try:
+                loaded_sim_info = configutil.load_from_file(dir_path)
+                loaded_arrays = ar.load_arrays(dir_path)
+                matches = configutil.equal_audio(chosen_sim_info, loaded_sim_info, chosen_arrays.path_type) and \
+                    ar.prototype_equals(chosen_arrays, loaded_arrays)
+            except Exception as e: # damaged, incomplete or unrelated folders can fail in any way
+                print(f"Warning: {dir_path} is not a readable session: {e!r}")
+                continue
+
+            if matches:
                 return dir_path
     raise MatchingSessionNotFoundError("No matching saved sessions")
 
-- 
2.43.0


From df937a9b3b252985e583a111bc0c28ff7862ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 35/62] fix: sessions without simulation metadata can be loaded
 from path with a figure folder

---
 src/aspsim/saveloadsession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 67f6190..ba7502c 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -37,9 +37,10 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists(): # is only saved if there is any metadata
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From f12ad9645a44e610bac94a6962c0eaf656769e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 36/62] fix: sessions with moving arrays can be simulated after
 load_from_path

---
 src/aspsim/saveloadsession.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index ba7502c..96e9a19 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -31,6 +31,11 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
     loaded_sim_info = configutil.load_from_file(session_path_to_load)
 
+    for src, mic in loaded_arrays.mic_src_combos():
+        if src.dynamic or mic.dynamic: # is updated during the simulation, so it can not be a fixed path
+            if loaded_arrays.path_type[src.name][mic.name] != "modified":
+                del loaded_arrays.paths[src.name][mic.name]
+
     if new_folder_path is not None:
         copy_sim_metadata(session_path_to_load, new_folder_path)
         loaded_sim_info.save_to_file(new_folder_path)
-- 
2.43.0


From b2d2bb1be3127b3241cf12886c2279ffd46b5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 37/62] fix: folders and config files can be given as strings,
 as documented

---
 src/aspsim/configutil.py | 1 +
 src/aspsim/simulator.py  | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 2b323b8..e5371bf 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -46,6 +46,7 @@ class SimulatorInfo:
                 yaml.dump(dc.asdict(self), f, sort_keys=False)
 
 def load_from_file(path):
+    path = Path(path)
     if path.is_dir():
         path = path.joinpath("config.yaml")
 
diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..92f7566 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -45,8 +46,8 @@ class SimulatorSetup:
         else:
             self.sim_info = configutil.load_from_file(config_path)
 
-        self.base_fig_path = base_fig_path
-        self.session_folder = session_folder
+        self.base_fig_path = None if base_fig_path is None else Path(base_fig_path)
+        self.session_folder = None if session_folder is None else Path(session_folder)
 
         if rng is None:
             self.rng = np.random.default_rng()
@@ -161,7 +162,7 @@ class SimulatorSetup:
         session_path : str or Path from pathlib
         """
         self.folder_path = self._create_fig_folder(self.base_fig_path)
-        self.sim_info, self.arrays = sess.load_from_path(session_path, self.folder_path)
+        self.sim_info, self.arrays = sess.load_from_path(Path(session_path), self.folder_path)
 
     def create_simulator(self):
         """Creates and returns a simulator object from the current setup.
-- 
2.43.0


From e446887e5181448c0bf20ac5f1f55769fd54393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 38/62] fix: accept the documented option random for reverb
 when a config is created or loaded

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index e5371bf..f42aa14 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From 6ef669135468a57ef1061a806e438dc4ecba8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 39/62] fix: configs with numpy values or tuples can be read
 back after they are saved

---
 src/aspsim/configutil.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index f42aa14..4d6b86a 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -43,7 +43,16 @@ class SimulatorInfo:
     def save_to_file(self, path):
         if path is not None:
             with open(path.joinpath("config.yaml"), "w") as f:
-                yaml.dump(dc.asdict(self), f, sort_keys=False)
+                config = {key: _to_builtin(val) for key, val in dc.asdict(self).items()}
+                yaml.dump(config, f, sort_keys=False)
+
+def _to_builtin(val):
+    """Replaces numpy values and tuples, which can not be read back from a yaml file"""
+    if hasattr(val, "tolist"):
+        val = val.tolist()
+    if isinstance(val, (list, tuple)):
+        return [_to_builtin(v) for v in val]
+    return val
 
 def load_from_file(path):
     path = Path(path)
@@ -72,8 +81,8 @@ def equal_audio(info1, info2, path_types):
 
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
-            info1.room_size == info2.room_size and \
-            info1.room_center == info2.room_center and \
+            _to_builtin(info1.room_size) == _to_builtin(info2.room_size) and \
+            _to_builtin(info1.room_center) == _to_builtin(info2.room_center) and \
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-- 
2.43.0


From 8cde08494539e17befdd145bf6b092d6e4d7b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 40/62] fix: metadata containing numpy values can be saved

---
 src/aspsim/array.py           | 5 +++--
 src/aspsim/fileutilities.py   | 5 +++++
 src/aspsim/saveloadsession.py | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 5d94712..68f4a96 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -7,6 +7,7 @@ import matplotlib.pyplot as plt
 import matplotlib.patches as patches
 
 import aspsim.diagnostics.plot as dplot
+import aspsim.fileutilities as futil
 import aspsim.room.roomimpulseresponse as rir
 import aspsim.room.region as reg
 import aspsim.room.trajectory as tr
@@ -77,14 +78,14 @@ class ArrayCollection():
         for ar_name, ar in self.arrays.items():
             array_info[ar_name] = ar.metadata
         with open(filepath.joinpath("metadata_arrays.json"), "w") as f:
-            json.dump(array_info, f, indent=4)
+            json.dump(array_info, f, indent=4, default=futil.json_default)
 
     def _save_metadata_paths(self, filepath):
         #path_info = {}
         #for src, mic in self.mic_src_combos():
         #    path_info[f"{src.name}->{mic.name}"] = self.path_type[src.name][mic.name]
         with open(filepath.joinpath("metadata_paths.json"), "w") as f:
-            json.dump(self.path_info, f, indent=4)
+            json.dump(self.path_info, f, indent=4, default=futil.json_default)
 
     def _save_readable_pos(self, filepath):
         pos = {}
diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index c7fed60..04c3834 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -1,6 +1,11 @@
 import datetime
 
 
+def json_default(obj):
+    """Makes numpy arrays and scalars serializable, use as default argument of json.dump"""
+    if hasattr(obj, "tolist"):
+        return obj.tolist()
+    raise TypeError(f"Object of type {obj.__class__.__name__} is not JSON serializable")
 
 
 def get_time_string(detailed=False):
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 96e9a19..9a3f2ef 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -76,7 +76,7 @@ def add_to_sim_metadata(folder_path, dict_to_add):
     except FileNotFoundError:
         tot_data = dict_to_add
     with open(folder_path.joinpath("metadata_sim.json"), "w") as f:
-        json.dump(tot_data, f, indent=4)
+        json.dump(tot_data, f, indent=4, default=futil.json_default)
 
 
 def write_processor_metadata(processors, folder_path):
@@ -88,4 +88,4 @@ def write_processor_metadata(processors, folder_path):
     for proc in processors:
         tot_metadata[proc.name] = proc.metadata
     with open(folder_path.joinpath(file_name), "w") as f:
-        json.dump(tot_metadata, f, indent=4)
\ No newline at end of file
+        json.dump(tot_metadata, f, indent=4, default=futil.json_default)
\ No newline at end of file
-- 
2.43.0


From f7f834f89438a5ae27c4585c3b75362fbae9445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 41/62] fix: no processor metadata file is written without
 processor, as documented

---
 src/aspsim/saveloadsession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9a3f2ef..56003c2 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -80,7 +80,7 @@ def add_to_sim_metadata(folder_path, dict_to_add):
 
 
 def write_processor_metadata(processors, folder_path):
-    if folder_path is None:
+    if folder_path is None or not processors:
         return
         
     file_name = "metadata_processor.json"
-- 
2.43.0


From 124efee8f1c3277d47592934299f22f4e1bd9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 42/62] fix: array metadata describes the source after
 set_source, sources only need get_samples

---
 src/aspsim/array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 68f4a96..75510f6 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -677,8 +677,6 @@ class FreeSourceArray(Array):
     def __init__(self, name, pos, source, **kwargs):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
-
-        self.metadata["source info"] = self.source.metadata
     
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
@@ -688,8 +686,10 @@ class FreeSourceArray(Array):
         return self.source.get_samples(num_samples)
 
     def set_source(self, source):
-        assert source.num_channels == self.num
+        # num_channels and metadata are optional, only get_samples is required of a source
+        assert getattr(source, "num_channels", self.num) == self.num
         self.source = source
+        self.metadata["source info"] = getattr(source, "metadata", {})
 
 
 
-- 
2.43.0


From 9d4226e5e331b4b4ade08d96e73ca6cbe323fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 43/62] fix: array metadata contains the number of groups after
 set_groups

---
 src/aspsim/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 75510f6..fcf1485 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -568,6 +568,7 @@ class Array(ABC):
         """
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
+        self.metadata["number of groups"] = self.num_groups
 
     def plot(self, ax, sim_info=None):
         if self.dynamic:
-- 
2.43.0


From 4d6d7a4dcea28120a6f07271d84580fa6a15e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 44/62] fix: simulations with diagnostics can be run without a
 figure folder

---
 src/aspsim/diagnostics/plot.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index c95ed1b..e7b8499 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,9 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
+
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +222,9 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
+
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +322,9 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
+
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From 06a44c539914196fb166090b654bd28c4223e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 45/62] fix: silent or empty recordings can be exported as
 audio files

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index e7b8499..3541e79 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -351,7 +351,8 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         #         fileName = "_".join((name, proc_name, audio_name, str(time_idx)))
         #     file_path = folder.joinpath(fileName + ".wav")
 
-        signal_to_write = signal / np.max(np.abs(signal))
+        max_val = np.max(np.abs(signal), initial=0)
+        signal_to_write = signal / max_val if max_val > 0 else np.copy(signal)
         
 
         ramp_length = min(int(0.2*samplerate), int(0.1 * signal_to_write.shape[-1]))
-- 
2.43.0


From 470acb29f19f606847bc017df451d72423755bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 46/62] fix: load_audio_file can read files with a single
 channel

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index a6c356b..53a442d 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -286,8 +286,7 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
-    assert audio.ndim == 2
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
     #                            Make support for multiple channels (should be simple)")
-- 
2.43.0


From 2f89fd445bc5abf96a9ea0efbbba76590f920f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 47/62] fix: load_audio_file keeps the sample rate of the file
 if no sample rate is requested

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 53a442d..46c9f04 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -293,7 +293,7 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
-- 
2.43.0


From f5fc82ce44dd493d28fda4d2a9f7bb43275eb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 48/62] fix: load_audio_file can resample without a limit on
 the number of channels

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 46c9f04..6b8a0d4 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -300,7 +300,7 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From 5092943f736ae88f3d5d19f822eb760ef8b6da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 49/62] fix: changing the set-up after create_simulator does
 not affect the created simulator

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 92f7566..473335a 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -182,27 +182,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From e56628726d2fcd3ee7809d5422b2b41a35e4554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 50/62] fix: simulations with moving arrays can contain arrays
 without elements

---
 src/aspsim/array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index fcf1485..e950840 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -290,6 +290,9 @@ class ArrayCollection():
         mic : Array
             The microphone array
         """
+        if src.num == 0 or mic.num == 0:
+            return
+
         reverb = self.path_type[src.name][mic.name]
         assert reverb != "modified"
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
-- 
2.43.0


From 20864ea3443c6d57663bea8d6de149df5d49cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 51/62] fix: short audio exports are faded at the end as well
 as at the start

---
 src/aspsim/diagnostics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 3541e79..b6c343d 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -359,7 +359,7 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         if ramp_length > 0:
             ramp = np.linspace(0,1,ramp_length)
             signal_to_write[:,:ramp_length] *= ramp
-            signal_to_write[:,-ramp_length:] *= (1-ramp)
+            signal_to_write[:,-ramp_length:] *= ramp[::-1]
 
         sf.write(str(file_path), signal_to_write.T, samplerate)
 
-- 
2.43.0


From e9c7a3d71b1e555c0c8c75ce2642316b7363fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 52/62] fix: keep the imaginary part of recorded complex states

---
 src/aspsim/diagnostics/diagnostics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7435c02..08eed89 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,10 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[..., self.diag_idx] = self.get_prop(processor)
+        state = self.get_prop(processor)
+        if np.iscomplexobj(state) and not np.iscomplexobj(self.state_values):
+            self.state_values = self.state_values.astype(complex)
+        self.state_values[..., self.diag_idx] = state
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From a5c16dc8429da9de23b96feab701867699ee1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 53/62] fix: several export functions can be given without
 export_kwargs

---
 src/aspsim/diagnostics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e8d9d2f..d91f142 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -291,7 +291,7 @@ class Diagnostic:
         self.export_function = [type(self).export_functions[func_choice] for func_choice in export_func]
 
         if export_kwargs is None:
-            export_kwargs = {}
+            export_kwargs = [{} for _ in range(len(self.export_function))]
         if isinstance(export_kwargs, dict):
             export_kwargs = [export_kwargs]
         assert len(export_kwargs) == len(self.export_function)
-- 
2.43.0


From 1bc0e04e32698967187ca9f0643fb1aa2fa0073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 54/62] fix: smoothing an empty signal gives an empty signal

---
 src/aspsim/diagnostics/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/diagnostics/preprocessing.py b/src/aspsim/diagnostics/preprocessing.py
index 07b1636..c6c27e1 100644
--- a/src/aspsim/diagnostics/preprocessing.py
+++ b/src/aspsim/diagnostics/preprocessing.py
@@ -47,6 +47,8 @@ def clip(low_lim, high_lim):
 def smooth(smooth_len):
     ir = np.ones((1, smooth_len)) / smooth_len
     def smooth_internal(signal):
+        if signal.shape[-1] == 0:
+            return signal
         return spsig.oaconvolve(signal, ir, mode="full", axes=-1)[:,:signal.shape[-1]]
     return smooth_internal
 
-- 
2.43.0


From ac214204ea32f612fd8e18c28cb222b1fba420de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 55/62] fix: compare_soundfields sorts all soundfields along
 the position axis

---
 src/aspsim/diagnostics/soundfieldplot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/diagnostics/soundfieldplot.py b/src/aspsim/diagnostics/soundfieldplot.py
index 2287a38..d42734f 100644
--- a/src/aspsim/diagnostics/soundfieldplot.py
+++ b/src/aspsim/diagnostics/soundfieldplot.py
@@ -12,25 +12,27 @@ def compare_soundfields(pos, sig, algo_labels, row_labels, arrays_to_plot={}):
         
         The resulting plot is multiple axes, numAlgos rows high, and numAxes columns wide"""
     #num_rows, num_cols = sfp.get_num_pixels(pos)
-    pos, sig = sort_for_imshow(pos, sig)
-    if sig.ndim == 2:
+    sig = np.array(sig)
+    if sig.ndim == 1:
         sig = sig[None,...]
-    if sig.ndim == 3:
+    if sig.ndim == 2:
         sig = sig[None,...]
 
     num_algos = sig.shape[0]
     num_each_algo = sig.shape[1]
-    extent = size_of_2d_plot([pos] + list(arrays_to_plot.values()))
+    pos, sig = sort_for_imshow(pos, np.moveaxis(sig, -1, 0).reshape(sig.shape[-1], -1))
+    sig = np.moveaxis(sig.reshape(sig.shape[0], sig.shape[1], num_algos, num_each_algo), (2, 3), (0, 1))
+    extent = size_of_2d_plot([pos] + [array.pos for array in arrays_to_plot.values()])
     extent /= np.max(extent)
     scaling = 5
 
-    fig, axes = plt.subplots(num_algos, num_each_algo, figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling))
+    fig, axes = plt.subplots(num_algos, num_each_algo, figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling), squeeze=False)
     fig.tight_layout(pad=2.5)
 
     
 
 
-    for i, rows in enumerate(np.atleast_2d(axes)):
+    for i, rows in enumerate(axes):
         for j, ax in enumerate(rows):
             sf_plot(ax, pos, sig[i,j,:,:], f"{algo_labels[i]}, {row_labels[j]}", arrays_to_plot)
     
-- 
2.43.0


From fef48681b7119ed05e7c22002d2d595ac861ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 56/62] fix: legend lists names with underscores only once

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index b6c343d..d46ec7e 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -193,8 +193,9 @@ def legend_without_duplicates(ax, loc):
     handles, labels = ax.get_legend_handles_labels()
     newLabels, newHandles = [], []
     for handle, label in zip(handles, labels):
+      label = label.replace("_", "\_")
       if label not in newLabels:
-        newLabels.append(label.replace("_", "\_"))
+        newLabels.append(label)
         newHandles.append(handle)
 
     ax.legend(newHandles, newLabels, loc=loc)
-- 
2.43.0


From 4d940234471635f0eabc28669000e357dcf8167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 57/62] fix: spectrum figure can be exported for signal
 diagnostics with time indices

---
 src/aspsim/diagnostics/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index d46ec7e..8e54ef7 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -376,9 +376,11 @@ def spectrum_plot(name, diags, time_idx, folder, preprocess, print_method="pdf")
 
     for proc_name, diag in diags.items():
         output = diag.get_processed_output(time_idx, preprocess)
-        num_channels = output.shape[0]
+        if isinstance(output, tuple):
+            # only the output is plotted even if time indices are provided
+            output = output[0]
         ax.plot(
-                output,
+                output.T,
                 alpha=0.8,
                 label=proc_name,
             )
-- 
2.43.0


From 79669e9a024500d1c835fafa21c530920caaf4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 58/62] fix: saved session is not reused for arrays with
 another directivity

---
 src/aspsim/array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index e950840..02f2225 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -469,6 +469,10 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.array_equal(ar.pos, initialized[ar_name].pos):
             return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if not np.array_equal(ar.directivity_dir, initialized[ar_name].directivity_dir):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-- 
2.43.0


From ebfc61ba6a5511064971a53077420a3034f90632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 59/62] fix: moving arrays can be plotted without a simulation
 length

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 02f2225..db8d910 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -579,7 +579,8 @@ class Array(ABC):
 
     def plot(self, ax, sim_info=None):
         if self.dynamic:
-            self.trajectory.plot(ax, self.plot_symbol, self.name, sim_info.tot_samples)
+            tot_samples = sim_info.tot_samples if sim_info is not None else None
+            self.trajectory.plot(ax, self.plot_symbol, self.name, tot_samples)
         else:
             ax.plot(self.pos[:,0], self.pos[:,1], self.plot_symbol, label=self.name, alpha=0.8)
 
-- 
2.43.0


From ace4bf2bfcc609e68f55304b709ca856e0fa3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 60/62] fix: the position log of a moving array keeps a copy of
 each position

---
 src/aspsim/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index db8d910..85b07a3 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -588,7 +588,7 @@ class Array(ABC):
         if self.dynamic:
             self.pos = self.trajectory.current_pos(glob_idx)
             self.time_all.append(glob_idx)
-            self.pos_all.append(self.pos)
+            self.pos_all.append(np.copy(self.pos))
             return True
         return False
 
-- 
2.43.0


From ae5bd3549af220dbb005671f34ac0bd532e57279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 61/62] fix: folders of other figures with dotted names are not
 mistaken for earlier exports

---
 src/aspsim/fileutilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 04c3834..df8c57b 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -89,8 +89,9 @@ def find_all_earlier_files(
 
     earlier_files = []
     for f in folder.iterdir():
-        if f.stem.startswith(name) and f.stem[len(name):].isdigit():
-            f_idx = int(f.stem[len(name) :])
+        stem = f.name if f.is_dir() else f.stem
+        if stem.startswith(name) and stem[len(name):].isdigit():
+            f_idx = int(stem[len(name) :])
             if f_idx > current_idx:
                 if error_if_future_files_exist:
                     raise ValueError
-- 
2.43.0


From 4cfed4b41d2c3a1fa6df77b0ec21f85b7ad63fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 62/62] fix: a region given twice is detected as overlapping

---
 src/aspsim/room/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 482406d..906fdc8 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -36,11 +36,11 @@ class CombinedRegion(Region):
         self.volume = np.sum(self.volumes)
 
     def _overlaps(self):
-        for r in self.regions:
+        for i, r in enumerate(self.regions):
             points_fixed = r.equally_spaced_points()
             points_sampled = r.sample_points(100)
-            for other_reg in self.regions:
-                if r is other_reg:
+            for j, other_reg in enumerate(self.regions):
+                if i == j:
                     continue
                 if np.any(other_reg.is_in_region(points_fixed)) or \
                     np.any(other_reg.is_in_region(points_sampled)):
-- 
2.43.0

