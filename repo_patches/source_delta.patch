From d8a9590591de04ba50a0576d0d49afbe4992f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 01/23] fix: locations that are all ignored (or empty) no
 longer fail with initial wavefields

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..72ed48f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1928,6 +1928,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From b396e02dad8670cdbe8f838703049ed2c0614151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 02/23] fix: use sigmaxx_0 when determining the number of
 dimensions of elastic

---
 src/deepwave/elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..ddc7d83 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -692,7 +692,7 @@ def elastic(
             m_sigmaxyy_0,
             m_sigmaxyx_0,
         ],
-        [vx_0, m_vxx_0, m_sigmaxxx_0],
+        [vx_0, sigmaxx_0, m_vxx_0, m_sigmaxxx_0],
     )
     if ndim < 3 and (
         source_locations_z is not None or receiver_locations_z is not None
-- 
2.43.0


From c1dc1fdce05c5a5c07946ba1370e703c32a40584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 03/23] fix: zero the Nyquist frequency when freq_taper_frac is
 too small to taper a sample

---
 src/deepwave/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 72ed48f..374c7e6 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1346,7 +1346,7 @@ def upsample(
     if freq_taper_frac > 0.0:
         freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
-    elif signal_f.shape[-1] > 1:
+    if signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     pad_len = up_nt // 2 + 1 - signal_f.shape[-1]
     if pad_len > 0:
@@ -1438,7 +1438,7 @@ def downsample(
     if freq_taper_frac > 0.0:
         freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
-    elif signal_f.shape[-1] > 1:
+    if signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     if shift != 0.0:
         freqs = torch.fft.rfftfreq(signal.shape[-1], device=signal.device)[
-- 
2.43.0


From 6817c4d2d9b4422f466be1eb81849f11cb35cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 04/23] fix: propagate all time steps when nt is not a multiple
 of model_gradient_sampling_interval

---
 src/deepwave/acoustic.py    | 26 ++++++++++++++-----------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 26 ++++++++++++++-----------
 src/deepwave/scalar.py      | 28 +++++++++++++++------------
 src/deepwave/scalar_born.py | 38 +++++++++++++++++++++----------------
 5 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..a70a225 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -907,7 +907,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +946,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, -(-nt // step_ratio), callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +960,9 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                chunk_nt = min(
+                    nt - step * step_ratio, callback_frequency * step_ratio
+                )
 
                 if (
                     forward(
@@ -974,7 +976,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1142,7 +1144,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,8 +1181,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(-(-nt // step_ratio), 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
@@ -1196,7 +1200,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1213,7 +1217,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1222,7 +1226,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1476,7 +1480,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1492,7 +1496,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 374c7e6..7c57c89 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = -(-self.nt // self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ddc7d83..ad03858 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1435,7 +1435,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         wavefield_names = []
         model_names = []
@@ -1497,7 +1497,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, -(-nt // step_ratio), callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1511,7 +1511,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                chunk_nt = min(
+                    nt - step * step_ratio, callback_frequency * step_ratio
+                )
 
                 if (
                     forward(
@@ -1525,7 +1527,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1766,7 +1768,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         wavefield_names = []
         model_names = []
@@ -1828,8 +1830,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(-(-nt // step_ratio), 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
@@ -1845,7 +1849,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1870,7 +1874,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1879,7 +1883,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2500,7 +2504,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2529,7 +2533,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..8352441 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -841,14 +841,14 @@ class ScalarForwardFunc(torch.autograd.Function):
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, -(-nt // step_ratio), callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +871,9 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                chunk_nt = min(
+                    nt - step * step_ratio, callback_frequency * step_ratio
+                )
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +893,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +918,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1242,13 +1244,15 @@ class ScalarBackwardFunc(torch.autograd.Function):
         grad_wfp = -grad_wfp
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(-(-nt // step_ratio), 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         v2dt2.data_ptr(),
@@ -1268,7 +1272,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1282,7 +1286,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1291,7 +1295,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2042,7 +2046,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2064,7 +2068,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..f01a377 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -821,13 +821,13 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, -(-nt // step_ratio), callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +855,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                chunk_nt = min(
+                    nt - step * step_ratio, callback_frequency * step_ratio
+                )
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +884,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +910,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1161,14 +1163,16 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         grad_wfpsc = -grad_wfpsc
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = -(-nt // step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(-(-nt // step_ratio), 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    chunk_nt = end_t - (step - step_nt) * step_ratio
                     if (
                         backward(
                             v.data_ptr(),
@@ -1201,7 +1205,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1221,7 +1225,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1230,7 +1234,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1293,8 +1297,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(-(-nt // step_ratio), 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    chunk_nt = end_t - (step - step_nt) * step_ratio
                     if (
                         backward_sc(
                             v.data_ptr(),
@@ -1315,7 +1321,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1330,7 +1336,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1339,7 +1345,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1646,7 +1652,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1677,7 +1683,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From c5f70843ab7033398506775b29c5f6004de8ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 05/23] fix: staggered grid gradients near the edge of models
 narrower than the stencil

The left PML part of the backpropagation could extend over the last half
grid point, which does not exist, when the model was not wider than the
finite difference stencil.
---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index a70a225..cbb3435 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1097,7 +1097,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ad03858..6a84ebd 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1711,7 +1711,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From bc9624c27d0063f5a86e879916688542751de90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 06/23] fix: upsample also the time dimension of signals with
 no elements

Otherwise the gradient of source amplitudes with no sources had the wrong
shape when the time step was subdivided.
---
 src/deepwave/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 7c57c89..dcd6fe2 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1334,8 +1334,10 @@ def upsample(
     _validate_sample_args(
         signal, step_ratio, freq_taper_frac, time_pad_frac, time_taper
     )
-    if signal.numel() == 0 or step_ratio == 1:
+    if step_ratio == 1:
         return signal
+    if signal.numel() == 0:
+        return signal.repeat_interleave(step_ratio, dim=-1)
 
     n_time_pad = int(time_pad_frac * signal.shape[-1]) if time_pad_frac > 0.0 else 0
     if n_time_pad > 0:
-- 
2.43.0


From a81962e63fdde8aaf7ba36b818fc6ad633ea3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 07/23] fix: zero the temporary gradient buffers in each chunk
 of backpropagation

When backpropagation was divided by backward callbacks, the contributions of
earlier chunks to the gradient of a model shared by shots were added again for
every later chunk if a temporary buffer was used (several threads, or GPU).
---
 src/deepwave/acoustic.py    | 3 +++
 src/deepwave/elastic.py     | 3 +++
 src/deepwave/scalar.py      | 2 ++
 src/deepwave/scalar_born.py | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index cbb3435..15ad3f5 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1182,6 +1182,9 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(-(-nt // step_ratio), 0, -callback_frequency):
+                # Each call adds the contents of the temporary buffer to the gradient
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.fill_(0)
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 6a84ebd..39f8753 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1831,6 +1831,9 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(-(-nt // step_ratio), 0, -callback_frequency):
+                # Each call adds the contents of the temporary buffer to the gradient
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.fill_(0)
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 8352441..0853a02 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1250,6 +1250,8 @@ class ScalarBackwardFunc(torch.autograd.Function):
 
         if grad_wfc.numel() > 0 and nt > 0:
             for step in range(-(-nt // step_ratio), 0, -callback_frequency):
+                # Each call adds the contents of the temporary buffer to the gradient
+                grad_v_tmp.fill_(0)
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index f01a377..bc5d6ab 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1170,6 +1170,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
                 for step in range(-(-nt // step_ratio), 0, -callback_frequency):
+                    # Each call adds the contents of the temporary buffer to the gradient
+                    grad_v_tmp.fill_(0)
+                    grad_scatter_tmp.fill_(0)
                     step_nt = min(step, callback_frequency)
                     end_t = min(step * step_ratio, nt)
                     chunk_nt = end_t - (step - step_nt) * step_ratio
@@ -1298,6 +1301,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         )
             else:
                 for step in range(-(-nt // step_ratio), 0, -callback_frequency):
+                    # Each call adds the contents of the temporary buffer to the gradient
+                    grad_scatter_tmp.fill_(0)
                     step_nt = min(step, callback_frequency)
                     end_t = min(step * step_ratio, nt)
                     chunk_nt = end_t - (step - step_nt) * step_ratio
-- 
2.43.0


From dfffdbd316e7b043960e50e59b7fef3df22b757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 08/23] fix: refuse to double backpropagate through the
 acoustic propagator

It is not supported, as for the elastic and Born propagators, but silently
returned wrong values.
---
 src/deepwave/acoustic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 15ad3f5..fc5ce82 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1009,6 +1009,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         return (*[w[s] for w in wavefields], *receiver_amplitudes)
 
     @staticmethod
+    @torch.autograd.function.once_differentiable
     def backward(ctx: Any, *args: torch.Tensor) -> Tuple[Optional[torch.Tensor], ...]:
         """Computes gradients during backward pass."""
         # Unpack
-- 
2.43.0


From 3238bb99cc0907e9be8a51a4b51a0e635f55e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 09/23] fix: report failures to write or read intermediate
 storage on disk (CPU)

A full disk silently resulted in incorrect gradients, and a file that could
not be opened in a crash.
---
 src/deepwave/acoustic.c      | 18 ++++++++++--------
 src/deepwave/elastic.c       | 16 +++++++++-------
 src/deepwave/scalar.c        | 18 ++++++++++--------
 src/deepwave/scalar_born.c   | 35 +++++++++++++++++++----------------
 src/deepwave/storage_utils.c | 20 ++++++++++++--------
 src/deepwave/storage_utils.h | 12 ++++++------
 6 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/deepwave/acoustic.c b/src/deepwave/acoustic.c
index 708aa01..3af6b80 100644
--- a/src/deepwave/acoustic.c
+++ b/src/deepwave/acoustic.c
@@ -288,8 +288,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 
@@ -612,7 +613,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    err |= STORAGE_FUNC(save_snapshot_cpu)(                                \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -629,7 +630,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) err = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -640,7 +641,7 @@ __declspec(dllexport)
 #endif
     CLOSE_FILE(bx_grad)
   }
-  return 0;
+  return err;
 }
 
 #ifdef _WIN32
@@ -844,8 +845,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #ifdef _OPENMP
@@ -949,7 +951,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    err |= STORAGE_FUNC(load_snapshot_cpu)(                                  \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -1211,7 +1213,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) err = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -1242,5 +1244,5 @@ __declspec(dllexport)
   }
 #endif /* _OPENMP */
 
-  return 0;
+  return err;
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..7b794c8 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -625,8 +625,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1236,7 +1237,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    err |= STORAGE_FUNC(save_snapshot_cpu)(                                \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -1258,7 +1259,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) err = 1;
 
 #if DW_NDIM >= 3
     CLOSE_FILE(dvzdbuoyancy)
@@ -1274,7 +1275,7 @@ __declspec(dllexport)
     CLOSE_FILE(dvxdbuoyancy)
     CLOSE_FILE(dvxdx)
   }
-  return 0;
+  return err;
 }
 
 #ifdef _WIN32
@@ -1529,8 +1530,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1661,7 +1663,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    err |= STORAGE_FUNC(load_snapshot_cpu)(                                  \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -2250,5 +2252,5 @@ __declspec(dllexport)
                          nx);
   }
 #endif /* _OPENMP */
-  return 0;
+  return err;
 }
diff --git a/src/deepwave/scalar.c b/src/deepwave/scalar.c
index 06505e2..8522664 100644
--- a/src/deepwave/scalar.c
+++ b/src/deepwave/scalar.c
@@ -231,8 +231,9 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -398,7 +399,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        err |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -410,9 +411,9 @@ __declspec(dllexport)
                             r + t * n_shots * n_receivers_per_shot + ri,
                             n_receivers_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w)) err = 1;
   }
-  return 0;
+  return err;
 }
 
 #ifdef _WIN32
@@ -517,8 +518,9 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int err = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -589,7 +591,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        err |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -699,12 +701,12 @@ __declspec(dllexport)
                             grad_f + t * n_shots * n_sources_per_shot + si,
                             n_sources_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w)) err = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
     combine_grad(grad_v, grad_v_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return err;
 }
diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..535c0b5 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -281,9 +281,10 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int err = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -518,13 +519,13 @@ __declspec(dllexport)
       // Save Snapshots
       if (v_or_scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        err |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        err |= STORAGE_FUNC(save_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -544,10 +545,10 @@ __declspec(dllexport)
                             n_receiverssc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w)) err = 1;
+    if (fp_wsc && fclose(fp_wsc)) err = 1;
   }
-  return 0;
+  return err;
 }
 
 #ifdef _WIN32
@@ -696,9 +697,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int err = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -827,14 +829,14 @@ __declspec(dllexport)
 
       if (v_requires_grad_t || scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        err |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        err |= STORAGE_FUNC(load_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -977,8 +979,8 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w)) err = 1;
+    if (fp_wsc && fclose(fp_wsc)) err = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
@@ -988,7 +990,7 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return err;
 }
 
 #ifdef _WIN32
@@ -1097,9 +1099,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int err = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : err)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -1179,7 +1182,7 @@ __declspec(dllexport)
 
       if (scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        err |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -1284,12 +1287,12 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w)) err = 1;
   }
 #ifdef _OPENMP
   if (scatter_requires_grad && !scatter_batched && n_threads > 1) {
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return err;
 }
diff --git a/src/deepwave/storage_utils.c b/src/deepwave/storage_utils.c
index 5f9a813..5fb6316 100644
--- a/src/deepwave/storage_utils.c
+++ b/src/deepwave/storage_utils.c
@@ -8,7 +8,7 @@
 
 #if defined(DW_NDIM) && defined(DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
                                      void* const store_2, FILE* const fp,
                                      int64_t const storage_mode,
                                      bool const use_compression,
@@ -25,7 +25,7 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   void const* source = store_1;
   size_t size_to_write = step_bytes_uncomp;
 
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (use_compression) {
     SC_FUNC(compress_cpu)(store_1, store_2,
@@ -43,12 +43,14 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   if (storage_mode == STORAGE_DISK) {
     // Append to file
     int64_t const offset = step_idx * (int64_t)size_to_write;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(source, 1, size_to_write, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) ||
+        fwrite(source, 1, size_to_write, fp) != size_to_write)
+      return 1;
   }
+  return 0;
 }
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
+int STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
                                      FILE* const fp, int64_t const storage_mode,
                                      bool const use_compression,
                                      int64_t const step_idx,
@@ -61,15 +63,16 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
                                      size_t ny,
 #endif
                                      size_t nx) {
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (storage_mode == STORAGE_DISK) {
     void* const read_dst = use_compression ? store_2 : store_1;
     size_t const size_to_read =
         use_compression ? step_bytes_comp : step_bytes_uncomp;
     int64_t const offset = step_idx * (int64_t)size_to_read;
-    fseek(fp, offset, SEEK_SET);
-    fread(read_dst, 1, size_to_read, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) ||
+        fread(read_dst, 1, size_to_read, fp) != size_to_read)
+      return 1;
   }
 
   if (use_compression) {
@@ -82,6 +85,7 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
 #endif
                           nx);
   }
+  return 0;
 }
 
 #endif
\ No newline at end of file
diff --git a/src/deepwave/storage_utils.h b/src/deepwave/storage_utils.h
index 0927968..ad24f29 100644
--- a/src/deepwave/storage_utils.h
+++ b/src/deepwave/storage_utils.h
@@ -20,11 +20,11 @@ extern "C" {
 #define SS_CAT(name, ndim, dtype) SS_CAT_I(name, ndim, dtype)
 #define STORAGE_FUNC(name) SS_CAT(name, DW_NDIM, DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
-                                     FILE* fp, int64_t storage_mode,
-                                     bool use_compression, int64_t step_idx,
-                                     size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
+                                    FILE* fp, int64_t storage_mode,
+                                    bool use_compression, int64_t step_idx,
+                                    size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
                                      size_t nz,
 #endif
@@ -46,7 +46,7 @@ int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
 #endif
                                     size_t nx, void* stream);
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
                                      int64_t storage_mode, bool use_compression,
                                      int64_t step_idx, size_t step_bytes_uncomp,
                                      size_t step_bytes_comp,
-- 
2.43.0


From 46611a6e36d8ae5034a381a19c946920a99b5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 10/23] fix: PML profiles were NaN outside the PML when
 pml_freq is zero

---
 src/deepwave/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index dcd6fe2..53790ac 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2555,6 +2555,7 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    b[pml_frac == 0] = 0
     return a, b
 
 
-- 
2.43.0


From 55606f6366c53c392ef7d09c637345053e9be50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 11/23] fix: free surface reflections modified the cached Hicks
 weights

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..a3af070 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -87,7 +87,7 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 6e97b430b10c62f54b765b458dc509be5094deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 12/23] fix: Hicks interpolation of points between the free
 surface and the first cell

---
 src/deepwave/location_interpolation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index a3af070..626dc36 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,7 +57,8 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
+        location_floor = math.floor(location)
+        key = (int((location - location_floor) / eps), halfwidth, int(monopole))
         x = (
             torch.arange(
                 -halfwidth + 1,
@@ -66,9 +67,9 @@ def _get_hicks_for_one_location_dim(
                 device=beta.device,
             )
             - location
-            + int(location)
+            + location_floor
         )
-        locations = (location + x).long()
+        locations = (location + x).round().long()
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From 5839a543ec099419599fb8db09d324f78fbf3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 13/23] fix: Hicks weight of a point on a free surface at the
 edge of the window

---
 src/deepwave/location_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 626dc36..447b0db 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -89,7 +89,7 @@ def _get_hicks_for_one_location_dim(
                     / torch.i0(beta)
                 )
             hicks_weight_cache[key] = weights.clone()
-        if free_surface[0] and locations[0].item() < free_surface_loc[0]:
+        if free_surface[0] and locations[0].item() <= free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
             idx0 = math.ceil(free_surface_loc[0] - locations[0].item())
@@ -100,7 +100,7 @@ def _get_hicks_for_one_location_dim(
             flipped_weights = weights[:idx1].flip(0)
             weights[idx0 : idx0 + len(flipped_weights)] -= flipped_weights
             weights = weights[idx0:]
-        if free_surface[1] and locations[-1].item() > free_surface_loc[1]:
+        if free_surface[1] and locations[-1].item() >= free_surface_loc[1]:
             idx0 = (
                 len(weights) - 1 - math.ceil(locations[-1].item() - free_surface_loc[1])
             )
-- 
2.43.0


From 399e7313f21bab2b8b2dea1cbec80eb21fb536d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 14/23] fix: Hicks dipole on a free surface at the end of a
 dimension

---
 src/deepwave/location_interpolation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 447b0db..d146bcb 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -109,6 +109,14 @@ def _get_hicks_for_one_location_dim(
             )
             locations = locations[: idx0 + 1]
             flipped_weights = weights[idx1 + 1 :].flip(0)
+            n_extra = len(flipped_weights) - (idx0 + 1)
+            if n_extra > 0:
+                # The reflection extends beyond the beginning of the window
+                locations = torch.cat(
+                    [locations[:n_extra] - n_extra, locations],
+                )
+                weights = torch.nn.functional.pad(weights, (n_extra, 0))
+                idx0 += n_extra
             weights[idx0 + 1 - len(flipped_weights) : idx0 + 1] -= flipped_weights
             weights = weights[: idx0 + 1]
     return locations, weights
-- 
2.43.0


From 2b1f3f4e31976727a0af36cfe8862636e5878ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 15/23] fix: name the wavefields in forward callbacks of the
 elastic Python backend correctly

The names were paired with lists that contain a placeholder for the diagonal,
so shear stresses and memory variables were given under the wrong names or
not at all.
---
 src/deepwave/elastic.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 39f8753..ab57537 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2364,11 +2364,13 @@ def elastic_python(
         ]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
+            ["m_vyx_0"],
+            ["m_vxy_0"],
         ]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
+            ["m_sigmaxyx_0"],
+            ["m_sigmaxyy_0"],
         ]
 
     else:
@@ -2513,18 +2515,17 @@ def elastic_python(
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
             for i in range(len(shear_s_names)):
                 callback_wavefields.update(
-                    dict(zip(shear_s_names[i], shear_stresses[i]))
+                    dict(zip(shear_s_names[i], shear_stresses[i][i + 1 :]))
                 )
             callback_wavefields.update(dict(zip(v_mem_normal_names, v_mem_vars_normal)))
             for i in range(len(v_mem_shear_names)):
-                callback_wavefields.update(
-                    dict(zip(v_mem_shear_names[i], v_mem_vars_shear[i]))
-                )
+                # The diagonal elements are not shear
+                row = v_mem_vars_shear[i][:i] + v_mem_vars_shear[i][i + 1 :]
+                callback_wavefields.update(dict(zip(v_mem_shear_names[i], row)))
             callback_wavefields.update(dict(zip(s_mem_normal_names, s_mem_vars_normal)))
             for i in range(len(s_mem_shear_names)):
-                callback_wavefields.update(
-                    dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
-                )
+                row = s_mem_vars_shear[i][:i] + s_mem_vars_shear[i][i + 1 :]
+                callback_wavefields.update(dict(zip(s_mem_shear_names[i], row)))
             forward_callback(
                 deepwave.common.CallbackState(
                     dt,
-- 
2.43.0


From fece640df4a0a6ef6a64f9b27e5fd769a307e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 16/23] fix: include the last memory variable in elastic
 backward callbacks

---
 src/deepwave/elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ab57537..3b9ef3d 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1926,7 +1926,7 @@ class ElasticForwardFunc(torch.autograd.Function):
 
                 if backward_callback is not None:
                     callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
+                        zip(wavefield_names, grad_wavefields)
                     )
                     backward_callback(
                         deepwave.common.CallbackState(
-- 
2.43.0


From 0edeb378553b0fe63ff80ec80098d29a264e957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 17/23] fix: name the models in 3D elastic callbacks correctly

The 2D list of names replaced the 3D one.
---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3b9ef3d..1081f48 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1482,6 +1482,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1815,6 +1816,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From 1c2befafb174e0fa106359b8f92adfd5295815bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 18/23] fix: refuse locations that are not finite or only
 partly ignored

Such locations passed the checks and were turned into indices of unrelated
cells, or of memory outside of the model.
---
 src/deepwave/common.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 53790ac..131ef8f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2101,6 +2101,8 @@ def _validate_location_tensor(
     """Validate a single location tensor."""
     if not isinstance(location, torch.Tensor):
         raise TypeError("locations must be a torch.Tensor.")
+    if location.is_floating_point() and not location.isfinite().all():
+        raise ValueError("Locations must be finite.")
     if location.numel() > 0 and eps < (location - location.long()).abs().max():
         raise ValueError(
             "Locations should be specified as integer numbers of cells. "
@@ -2124,6 +2126,12 @@ def _validate_location_tensor(
             f"{name} locations must have {ndims} dimensional "
             f"coordinates, but found one with {location.shape[-1]}.",
         )
+    ignored = location == IGNORE_LOCATION
+    if (ignored.any(dim=-1) != ignored.all(dim=-1)).any():
+        raise RuntimeError(
+            f"{name} locations must have either all or none of their "
+            "coordinates set to IGNORE_LOCATION.",
+        )
 
 
 def _calculate_origin_and_stride(
-- 
2.43.0


From 59eb6533c0b875f8f5b301d94f801044804dcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 19/23] fix: make padded wavefields contiguous for the compiled
 propagators

---
 src/deepwave/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 131ef8f..fcfb614 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2597,10 +2597,12 @@ def create_or_pad(
     if tensor.numel() == 0:
         return torch.zeros(size, device=device, dtype=dtype)
     if max(fd_pad) == 0:
-        return tensor.clone()
+        return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (torch.nn.functional.pad(tensor, reversed_fd_pad)).requires_grad_(
-        tensor.requires_grad
+    return (
+        torch.nn.functional.pad(tensor, reversed_fd_pad)
+        .contiguous()
+        .requires_grad_(tensor.requires_grad)
     )
 
 
-- 
2.43.0


From 9e6e3dc63a206e9f1c8129a3478f32838e877206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 20/23] fix: taper amplitudes in their own data type

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index fcfb614..d44eec4 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1360,6 +1360,7 @@ def upsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     return signal
@@ -1425,6 +1426,7 @@ def downsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     n_time_pad = (
-- 
2.43.0


From 645c9a6b06fd4cc2250bce0b9d32359e4616e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 21/23] fix: allow initial wavefields inside function
 transforms

create_or_pad always called requires_grad_ on the padded tensor, which is
refused within torch.func transforms, so jvp, vmap and grad raised an
error when initial wavefields were given.
---
 src/deepwave/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index d44eec4..04e570f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2601,11 +2601,12 @@ def create_or_pad(
     if max(fd_pad) == 0:
         return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (
-        torch.nn.functional.pad(tensor, reversed_fd_pad)
-        .contiguous()
-        .requires_grad_(tensor.requires_grad)
-    )
+    padded = torch.nn.functional.pad(tensor, reversed_fd_pad).contiguous()
+    if padded.requires_grad != tensor.requires_grad:
+        # Not called unconditionally as it is not allowed within function
+        # transforms
+        padded.requires_grad_(tensor.requires_grad)
+    return padded
 
 
 def zero_interior(
-- 
2.43.0


From 5c3d3cfc2cdb147c68fe1a08a2480629d428e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 22/23] fix: wait for both storage buffers at the end of CUDA
 scalar propagation

---
 src/deepwave/scalar.cu      | 5 +++--
 src/deepwave/scalar_born.cu | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/scalar.cu b/src/deepwave/scalar.cu
index b89e578..344cf1c 100644
--- a/src/deepwave/scalar.cu
+++ b/src/deepwave/scalar.cu
@@ -683,10 +683,11 @@ extern "C"
     std::swap(wfc, wfp);
     std::swap(psix, psixn);
   }
+  // The last step stored might have used either of the buffers
   if (use_double_buffering) {
-    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done, 0));
+    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done_a, 0));
+    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done_b, 0));
   }
-
   return 0;
 }
 
diff --git a/src/deepwave/scalar_born.cu b/src/deepwave/scalar_born.cu
index aec45c4..dddda60 100644
--- a/src/deepwave/scalar_born.cu
+++ b/src/deepwave/scalar_born.cu
@@ -1187,8 +1187,11 @@ extern "C"
     std::swap(psixsc, psixnsc);
   }
 
-  if (use_double_buffering)
-    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done, 0));
+  // The last step stored might have used either of the buffers
+  if (use_double_buffering) {
+    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done_a, 0));
+    gpuErrchk(cudaStreamWaitEvent(stream_compute, event_storage_done_b, 0));
+  }
   return 0;
 }
 
-- 
2.43.0


From eed8f566e4ad388ae4c6704411fe74755e4055b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 23/23] fix: report failures to write or read intermediate
 storage on disk (CUDA)

---
 src/deepwave/storage_utils.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/deepwave/storage_utils.cu b/src/deepwave/storage_utils.cu
index a307ec4..730e05f 100644
--- a/src/deepwave/storage_utils.cu
+++ b/src/deepwave/storage_utils.cu
@@ -56,8 +56,9 @@ int STORAGE_FUNC(save_snapshot_gpu)(
   if (storage_mode == STORAGE_DISK) {
     cudaStreamSynchronize((cudaStream_t)stream);
     int64_t const offset = step_idx * (int64_t)bytes_to_store;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(store_3, 1, bytes_to_store, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) ||
+        fwrite(store_3, 1, bytes_to_store, fp) != bytes_to_store || fflush(fp))
+      return 1;
   }
   return 0;
 }
@@ -85,9 +86,9 @@ int STORAGE_FUNC(load_snapshot_gpu)(
     // Load from disk to Host
     cudaStreamSynchronize((cudaStream_t)stream);
     int64_t const offset = step_idx * (int64_t)bytes_to_load;
-    fseek(fp, offset, SEEK_SET);
-    size_t const count = fread(store_3, 1, bytes_to_load, fp);
-    if (count != bytes_to_load) return 1;
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) ||
+        fread(store_3, 1, bytes_to_load, fp) != bytes_to_load)
+      return 1;
   }
 
   if (storage_mode == STORAGE_CPU || storage_mode == STORAGE_DISK) {
-- 
2.43.0

