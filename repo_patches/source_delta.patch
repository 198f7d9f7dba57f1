From f57a5cea998b0715c71b399bd2da3be21ab6be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 01/62] fix: initial microphone samples are written only at the
 times they belong to

Propagator.prepare added the propagated initial samples to the whole
pre-simulation buffer, which broadcast the sample at time 0 over all earlier
samples when sources start at time 0.
---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From 86b1b179441de73fbd26a2395dd7855b2531a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 02/62] fix: simulate to the end without a processor when
 sim_buffer is below 4

The block size used without a processor was rounded down to 0, so the last
samples were never simulated and the recordings never completed.
---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..0c4574f 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -286,7 +286,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(1, self.sim_info.sim_buffer // 4)  
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From 650872b7667763bef747e1d2ba536141a426b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 03/62] fix: save states and snapshots before the block that
 needs a later sample

The documentation of save_at promises the value after X samples have been
processed. Saving after the processor was called could record the value after
one block too many.
---
 src/aspsim/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 0c4574f..837394c 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -293,13 +293,14 @@ class Simulator:
         while self.n_tot < self.sim_info.tot_samples+max_block_size:
             self.arrays.update(self.n_tot)
 
+            # save before processing, so that the state after X processed samples is what is saved
+            self.diag_moved_from_propagate(max_block_size)
+            self.diag.dispatch(self.folder_path)
+
             for proc in self.processors:
                 if self.n_tot % proc.block_size == proc.block_size-1:
                     proc.process(proc.block_size)
             self.propagator.propagate(1)
-            self.diag_moved_from_propagate(max_block_size)
-
-            self.diag.dispatch(self.folder_path)
 
             # Write progress
             if self.n_tot % 1000 == 0:
-- 
2.43.0


From ac2dd200581543e56c144bceb30cfa61947b008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 04/62] fix: propagate each sample with the array positions of
 that sample

propagate() generates sample n_tot+1, but the arrays were updated to the
positions of sample n_tot, so moving arrays lagged by one sample.
---
 src/aspsim/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 837394c..4cadfe9 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -275,6 +275,7 @@ class Simulator:
         self.propagator = Propagator(self.sim_info, self.arrays, self.sig)
 
         self.diag.prepare()
+        self.arrays.update(0)
         self.propagator.prepare()
         for proc in self.processors:
             proc.sig = self.sig
@@ -291,8 +292,6 @@ class Simulator:
         print("SIM START")
         self.n_tot = 0
         while self.n_tot < self.sim_info.tot_samples+max_block_size:
-            self.arrays.update(self.n_tot)
-
             # save before processing, so that the state after X processed samples is what is saved
             self.diag_moved_from_propagate(max_block_size)
             self.diag.dispatch(self.folder_path)
@@ -300,6 +299,9 @@ class Simulator:
             for proc in self.processors:
                 if self.n_tot % proc.block_size == proc.block_size-1:
                     proc.process(proc.block_size)
+
+            # sample n_tot+1 is the next to be propagated
+            self.arrays.update(self.n_tot+1)
             self.propagator.propagate(1)
 
             # Write progress
-- 
2.43.0


From 391344a70e0cc2d204d9670a89c20a9b57d7b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 05/62] fix: record and export states with more than one
 dimension

RecordState documents that state_dim can be a tuple, but indexed the second
axis instead of the last when saving, and the export asserted two dimensions.
---
 src/aspsim/diagnostics/core.py        | 7 +++----
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..04abf15 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -514,14 +514,13 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
@@ -533,5 +532,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
             above_max_idx = len(time_indices)
 
     time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    signal = signal[...,:above_max_idx]
     return signal, time_indices
diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..88dea99 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From e417e3fc0923c80c1374d161995e667769c6754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 06/62] fix: do not export state values recorded after the
 export index

When every recorded value was at or after the export index, all of them were
returned instead of none.
---
 src/aspsim/diagnostics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 04abf15..4e89a23 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -528,7 +528,7 @@ def get_values_from_selection(signal, time_indices, max_idx):
 
     above_max_idx = np.argmax(time_indices >= max_idx)
     if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
+        if np.logical_not(time_indices >= max_idx).all():
             above_max_idx = len(time_indices)
 
     time_indices = time_indices[:above_max_idx]
-- 
2.43.0


From df62fc63e6bc9b0c2f73c6c7217a302ce71af96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 07/62] fix: property names can select dictionary keys
 containing dots or brackets

attritemgetter split the name at every dot and dropped every bracket, also
inside quoted keys.
---
 src/aspsim/diagnostics/core.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 4e89a23..f214c9c 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from abc import abstractmethod
 
@@ -464,21 +465,21 @@ def attritemgetter(name):
     
     """
     assert name[0] != "["
-    attributes = name.replace("]", "")
-    attributes = attributes.split(".")
-    attributes = [attr.split("[") for attr in attributes]
+    # a quoted key can contain any character except apostrophes
+    selectors = re.findall(r"\[('[^']*'|[^\]]*)\]|([^.\[\]]+)", name)
 
     def getter (obj):
-        for sub_list in attributes:
-            obj = getattr(obj, sub_list[0])
-            for item in sub_list[1:]:
-                if item[0] == "'":
-                    if not item[-1] == "'":
-                        raise ValueError("Unmatched apostrophes")
-                    item = item.replace("'", "")
-                else:
-                    item = int(item)
-                obj = obj[item]
+        for item, attr in selectors:
+            if attr:
+                obj = getattr(obj, attr)
+                continue
+            if item[0] == "'":
+                if not item[-1] == "'":
+                    raise ValueError("Unmatched apostrophes")
+                item = item.replace("'", "")
+            else:
+                item = int(item)
+            obj = obj[item]
         return obj
     return getter
 
-- 
2.43.0


From 8b10ec702314effe43e04b8de4caab7144a73861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 08/62] fix: export indices after the last saved sample

---
 src/aspsim/diagnostics/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index f214c9c..4d244ac 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -110,7 +110,8 @@ class Logger:
     def export_this_idx(self):
         diag_names = []
         for dg_name, dg in self.diagnostics.items():
-            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
+            # all data before the export index that will ever be saved has been saved
+            if dg.next_export() <= min(dg.next_save()[0], self.sim_info.tot_samples):
                 assert dg_name not in diag_names
                 diag_names.append(dg_name)
         return diag_names
-- 
2.43.0


From 3d4e2278cee1769f8334a5c7c04049cad660b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 09/62] fix: spectrum export of signal diagnostics

---
 src/aspsim/diagnostics/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..69951b6 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -365,9 +365,10 @@ def spectrum_plot(name, diags, time_idx, folder, preprocess, print_method="pdf")
 
     for proc_name, diag in diags.items():
         output = diag.get_processed_output(time_idx, preprocess)
-        num_channels = output.shape[0]
+        if isinstance(output, tuple):
+            output = output[0] # only takes output even if time indices are provided
         ax.plot(
-                output,
+                output.T,
                 alpha=0.8,
                 label=proc_name,
             )
-- 
2.43.0


From 11862675e4f4f7008d80490743a1e2a6d9801740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 10/62] fix: no file exports without a result folder

---
 src/aspsim/diagnostics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 69951b6..4323ad3 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +221,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +320,8 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From 814d4d0082403ffb1d6ef53acef5827a28e5f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 11/62] fix: smoothing of an export without values

---
 src/aspsim/diagnostics/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/diagnostics/preprocessing.py b/src/aspsim/diagnostics/preprocessing.py
index 07b1636..c6c27e1 100644
--- a/src/aspsim/diagnostics/preprocessing.py
+++ b/src/aspsim/diagnostics/preprocessing.py
@@ -47,6 +47,8 @@ def clip(low_lim, high_lim):
 def smooth(smooth_len):
     ir = np.ones((1, smooth_len)) / smooth_len
     def smooth_internal(signal):
+        if signal.shape[-1] == 0:
+            return signal
         return spsig.oaconvolve(signal, ir, mode="full", axes=-1)[:,:signal.shape[-1]]
     return smooth_internal
 
-- 
2.43.0


From 28bafd361f7c2d03139a323d68fd830a8c411a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 12/62] fix: arrays without any elements

---
 src/aspsim/room/roomimpulseresponse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..3716c6b 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -89,7 +89,7 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
-            shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
+            shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos), initial=np.inf)))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-- 
2.43.0


From eafc220d48ce6732e0881caef6ec532cbae59abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 13/62] fix: a simulator keeps the configuration it was created
 with

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 4cadfe9..e4e58b8 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -181,27 +181,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From 105ff5fa368875f2f4e446e73504245f7c45d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 14/62] fix: room impulse responses of moving arrays use the
 constants of their own simulation

---
 src/aspsim/room/roomimpulseresponse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 3716c6b..cd02432 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -130,6 +130,9 @@ class PathGenerator:
         elif reverb == "random":
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
+            # the constants are global in pyroomacoustics, and can have been set by another generator
+            pra.constants.set("c", sim_info.c)
+            pra.constants.set("frac_delay_length", 2*(self.min_dly + sim_info.extra_delay) + 1)
             if sim_info.spatial_dims == 3:
                 path = ir_room_image_source_3d(
                         src.pos, 
-- 
2.43.0


From b35d7c0e8fabf4db1a0ba53c4f088c26e053f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 15/62] fix: a loaded session only replaces the paths, not the
 arrays and configuration

---
 src/aspsim/array.py           | 18 ++++++++++++++++++
 src/aspsim/saveloadsession.py |  7 +++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..9e6cde5 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -261,6 +261,24 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def use_paths_from(self, initialized, sim_info):
+        """Uses the impulse responses of an initialized collection instead of generating them
+
+        Parameters
+        ----------
+        initialized : ArrayCollection
+            A collection for which prototype_equals(self, initialized) is True
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+
+        for src, mic in self.mic_src_combos():
+            self.path_info[f"{src.name}->{mic.name}"] = initialized.path_info[f"{src.name}->{mic.name}"]
+            if self.path_type[src.name][mic.name] != "modified":
+                self.paths[src.name][mic.name] = initialized.paths[src.name][mic.name]
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..86c2d81 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -24,10 +24,9 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    # only the paths come from the session, everything else is as chosen
+    chosen_arrays.use_paths_from(loaded_arrays, chosen_sim_info)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 9153e3a116e6c8327af94b9fb76373aa3be98ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 16/62] fix: compare the parameters that influence the loaded
 paths, independent of their container type

---
 src/aspsim/configutil.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..06531ae 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,16 +63,19 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.highpass_cutoff == info2.highpass_cutoff
     
+    if any("random" in src_path_types.values() for src_path_types in path_types.values()):
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
+
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
-            info1.room_size == info2.room_size and \
-            info1.room_center == info2.room_center and \
+            list(info1.room_size) == list(info2.room_size) and \
+            list(info1.room_center) == list(info2.room_center) and \
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 83a364b2764dd423138c5fb4ca73b99e3528c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 17/62] fix: a session is only reused for exactly the same
 positions and paths

---
 src/aspsim/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 9e6cde5..7544f81 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -462,13 +462,13 @@ def prototype_equals(prototype, initialized):
             return False
         if ar.num != initialized[ar_name].num:
             return False
-        if not np.allclose(ar.pos,initialized[ar_name].pos):
+        if not np.array_equal(ar.pos,initialized[ar_name].pos):
             return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
-            if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
+            if not np.array_equal(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
             return False
-- 
2.43.0


From aff730f01db8b0541165c217ca4a83ab0f483fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 18/62] fix: every configuration can be read back from its file

---
 src/aspsim/configutil.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 06531ae..dd61248 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 import yaml
+import numpy as np
 import dataclasses as dc
 
 
@@ -37,13 +38,23 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
         if path is not None:
             with open(path.joinpath("config.yaml"), "w") as f:
-                yaml.dump(dc.asdict(self), f, sort_keys=False)
+                yaml.dump(_to_plain_types(dc.asdict(self)), f, sort_keys=False)
+
+def _to_plain_types(value):
+    """Converts tuples and numpy types to the types that can be loaded from a yaml file"""
+    if isinstance(value, dict):
+        return {key : _to_plain_types(val) for key, val in value.items()}
+    if isinstance(value, (list, tuple)):
+        return [_to_plain_types(val) for val in value]
+    if isinstance(value, (np.ndarray, np.generic)):
+        return value.tolist()
+    return value
 
 def load_from_file(path):
     if path.is_dir():
-- 
2.43.0


From 2c8113a85449028e7930c9d4f3b9ceefdc4107dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 19/62] fix: ignore folders that are not complete sessions when
 searching for a session

---
 src/aspsim/saveloadsession.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 86c2d81..581b6b1 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -48,8 +48,12 @@ class MatchingSessionNotFoundError(ValueError): pass
 def search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays):
     for dir_path in sessions_path.iterdir():
         if dir_path.is_dir():
-            loaded_sim_info = configutil.load_from_file(dir_path)
-            loaded_arrays = ar.load_arrays(dir_path)
+            try:
+                loaded_sim_info = configutil.load_from_file(dir_path)
+                loaded_arrays = ar.load_arrays(dir_path)
+            except Exception:
+                # not a session, or a session that was interrupted while being saved
+                continue
 
             if configutil.equal_audio(chosen_sim_info, loaded_sim_info, chosen_arrays.path_type) and \
                 ar.prototype_equals(chosen_arrays, loaded_arrays):
-- 
2.43.0


From c0997cd723172f084334e22dd9ed6ceba19706e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 20/62] fix: accept folders and config files given as strings

---
 src/aspsim/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index e4e58b8..c17db87 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -43,10 +44,10 @@ class SimulatorSetup:
         if config_path is None:
             self.sim_info = configutil.load_default_config()
         else:
-            self.sim_info = configutil.load_from_file(config_path)
+            self.sim_info = configutil.load_from_file(Path(config_path))
 
-        self.base_fig_path = base_fig_path
-        self.session_folder = session_folder
+        self.base_fig_path = None if base_fig_path is None else Path(base_fig_path)
+        self.session_folder = None if session_folder is None else Path(session_folder)
 
         if rng is None:
             self.rng = np.random.default_rng()
@@ -161,7 +162,7 @@ class SimulatorSetup:
         session_path : str or Path from pathlib
         """
         self.folder_path = self._create_fig_folder(self.base_fig_path)
-        self.sim_info, self.arrays = sess.load_from_path(session_path, self.folder_path)
+        self.sim_info, self.arrays = sess.load_from_path(Path(session_path), self.folder_path)
 
     def create_simulator(self):
         """Creates and returns a simulator object from the current setup.
-- 
2.43.0


From f6fea02896b04b7d2485d36bc47b69790590dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 21/62] fix: load a session that was saved without simulation
 metadata

---
 src/aspsim/saveloadsession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 581b6b1..8c7d5d8 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -38,9 +38,10 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists():
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From e28de166c4f58ac2e4a873aea9cf1bc31e2fb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 22/62] fix: metadata can contain numpy values

---
 src/aspsim/array.py           |  3 ++-
 src/aspsim/configutil.py      | 10 +++++-----
 src/aspsim/saveloadsession.py |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 7544f81..f4f57f0 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -6,6 +6,7 @@ import copy
 import matplotlib.pyplot as plt
 import matplotlib.patches as patches
 
+import aspsim.configutil as configutil
 import aspsim.diagnostics.plot as dplot
 import aspsim.room.roomimpulseresponse as rir
 import aspsim.room.region as reg
@@ -77,7 +78,7 @@ class ArrayCollection():
         for ar_name, ar in self.arrays.items():
             array_info[ar_name] = ar.metadata
         with open(filepath.joinpath("metadata_arrays.json"), "w") as f:
-            json.dump(array_info, f, indent=4)
+            json.dump(configutil.to_plain_types(array_info), f, indent=4)
 
     def _save_metadata_paths(self, filepath):
         #path_info = {}
diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index dd61248..7940ec9 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -44,14 +44,14 @@ class SimulatorInfo:
     def save_to_file(self, path):
         if path is not None:
             with open(path.joinpath("config.yaml"), "w") as f:
-                yaml.dump(_to_plain_types(dc.asdict(self)), f, sort_keys=False)
+                yaml.dump(to_plain_types(dc.asdict(self)), f, sort_keys=False)
 
-def _to_plain_types(value):
-    """Converts tuples and numpy types to the types that can be loaded from a yaml file"""
+def to_plain_types(value):
+    """Converts tuples and numpy types to the types that can be saved to yaml and json files"""
     if isinstance(value, dict):
-        return {key : _to_plain_types(val) for key, val in value.items()}
+        return {key : to_plain_types(val) for key, val in value.items()}
     if isinstance(value, (list, tuple)):
-        return [_to_plain_types(val) for val in value]
+        return [to_plain_types(val) for val in value]
     if isinstance(value, (np.ndarray, np.generic)):
         return value.tolist()
     return value
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 8c7d5d8..08d12b1 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -83,4 +83,4 @@ def write_processor_metadata(processors, folder_path):
     for proc in processors:
         tot_metadata[proc.name] = proc.metadata
     with open(folder_path.joinpath(file_name), "w") as f:
-        json.dump(tot_metadata, f, indent=4)
\ No newline at end of file
+        json.dump(configutil.to_plain_types(tot_metadata), f, indent=4)
\ No newline at end of file
-- 
2.43.0


From a05d613454c116c9dba18badd284dc9af27ffc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 23/62] fix: array metadata follows replaced sources and groups

---
 src/aspsim/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index f4f57f0..2fca2f7 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -567,6 +567,7 @@ class Array(ABC):
         """
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
+        self.metadata["number of groups"] = self.num_groups
 
     def plot(self, ax, sim_info):
         if self.dynamic:
@@ -674,8 +675,6 @@ class FreeSourceArray(Array):
     def __init__(self, name, pos, source, **kwargs):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
-
-        self.metadata["source info"] = self.source.metadata
     
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
@@ -687,6 +686,7 @@ class FreeSourceArray(Array):
     def set_source(self, source):
         assert source.num_channels == self.num
         self.source = source
+        self.metadata["source info"] = self.source.metadata
 
 
 
-- 
2.43.0


From a4012eb939f2ab7f22c4b9078d94e1c30d8fa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 24/62] fix: source metadata follows a changed power

---
 src/aspsim/signal/sources.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..f9b2c14 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -98,11 +98,6 @@ class WhiteNoiseSource(Source):
         super().__init__(num_channels, rng)
         self.set_power(power)
 
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
-
     def get_samples(self, num_samples):
         return self.rng.normal(
             loc=0, scale=self.stdDev, size=(num_samples, self.num_channels)
@@ -111,6 +106,10 @@ class WhiteNoiseSource(Source):
     def set_power(self, newPower):
         self.power = newPower
         self.stdDev = np.sqrt(newPower)
+        if isinstance(self.power, (np.ndarray)):
+            self.metadata["power"] = self.power.tolist()
+        else:
+            self.metadata["power"] = self.power
 
         if isinstance(self.power, np.ndarray):
             assert self.power.ndim == 1
@@ -225,10 +224,6 @@ class BandlimitedNoiseSource(Source):
         self.zi = spsig.sosfilt_zi(self.filtCoef)
         self.zi = np.tile(np.expand_dims(self.zi,1), (1,self.num_channels,1))
 
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
@@ -239,6 +234,10 @@ class BandlimitedNoiseSource(Source):
     def set_power(self, newPower):
         self.power = newPower
         self.amplitude = np.sqrt(newPower / self.testSigPow)
+        if isinstance(self.power, (np.ndarray)):
+            self.metadata["power"] = self.power.tolist()
+        else:
+            self.metadata["power"] = self.power
 
         # if isinstance(self.power, np.ndarray):
         #     assert self.power.ndim == 1
@@ -434,10 +433,6 @@ class GoldSequenceSource(Source):
         self.idx = 0
         self.set_power(power)
         
-        if isinstance(self.power, (np.ndarray)):
-            self.metadata["power"] = self.power.tolist()
-        else:
-            self.metadata["power"] = self.power
         self.metadata["order"] = order
         self.metadata["sequence length"] = self.seqLength
 
@@ -484,6 +479,10 @@ class GoldSequenceSource(Source):
         else:
             raise ValueError
         self.amplitude = np.sqrt(self.power)
+        if isinstance(self.power, (np.ndarray)):
+            self.metadata["power"] = self.power.tolist()
+        else:
+            self.metadata["power"] = self.power
 
 
 
-- 
2.43.0


From 7713056810f3f4de3e6a40a97bcda323d5ae0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 25/62] fix: sequences that end play all samples with their
 amplification

---
 src/aspsim/signal/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index f9b2c14..c55f308 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -80,14 +80,15 @@ class Sequence(Source):
                 self.current_sample = (self.current_sample + block_len) % self.tot_samples
                 i += block_len
         elif self.end_mode == "zeros":
-            raise NotImplementedError
+            block = self.audio[:,self.current_sample:self.current_sample+num_samples]
+            sig[:,:block.shape[1]] = block
+            self.current_sample += block.shape[1]
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From a376b380728b2e7941dc441f237150dca0f38190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 26/62] fix: counters and maximum length sequences have a
 channel axis

---
 src/aspsim/signal/sources.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index c55f308..e97df72 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -163,7 +163,7 @@ class Counter(Source):
     def get_samples(self, num_samples):
         values = np.arange(self.current_number, self.current_number+num_samples)
         self.current_number += num_samples
-        return values
+        return values[None,:]
 
 
 
@@ -412,7 +412,7 @@ class MLS(Source):
         seq, self.state = spsig.max_len_seq(
             self.order, state=self.state, length=num_samples, taps=self.poly
         )
-        return seq * 2 - 1
+        return (seq * 2 - 1)[None,:]
 
 
 class GoldSequenceSource(Source):
@@ -440,12 +440,12 @@ class GoldSequenceSource(Source):
         if 5 <= order <= 11:
             mls1 = MLS(1, order, self.preferredSequences[order][0])
             mls2 = MLS(1, order, self.preferredSequences[order][1])
-            seq1 = mls1.get_samples(2 ** order - 1)
-            seq2 = mls2.get_samples(2 ** order - 1)
+            seq1 = mls1.get_samples(2 ** order - 1)[0,:]
+            seq2 = mls2.get_samples(2 ** order - 1)[0,:]
         elif order > 11:
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
-            seq1 = mls1.get_samples(2**order - 1)
+            seq1 = mls1.get_samples(2**order - 1)[0,:]
             k = util.getSmallestCoprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
-- 
2.43.0


From af5b445867dc3f542d78095d4fa723a430f1928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 27/62] fix: a maximum length sequence starts at the given
 state

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index e97df72..c5174a5 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -402,7 +402,7 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-- 
2.43.0


From c3c1ee05698d6c6f63e07a52d5efc275a726211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 28/62] fix: noise of several channels does not depend on the
 block lengths

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index c5174a5..d996259 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -228,7 +228,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -381,7 +381,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From f1611de799db9c2a79c444f058a81566efa32ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 29/62] fix: a power for each channel of sines and bandlimited
 noise

---
 src/aspsim/signal/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index d996259..cb7bd23 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -123,6 +123,8 @@ class SineSource(Source):
         super().__init__(num_channels, rng)
         self.power = power
         self.amplitude = np.sqrt(2 * self.power)
+        if isinstance(self.power, np.ndarray) and self.power.ndim == 1:
+            self.amplitude = self.amplitude[:,None]
         # p = a^2 / 2
         # 2p = a^2
         # sqrt(2p) = a
@@ -235,6 +237,8 @@ class BandlimitedNoiseSource(Source):
     def set_power(self, newPower):
         self.power = newPower
         self.amplitude = np.sqrt(newPower / self.testSigPow)
+        if isinstance(self.power, np.ndarray) and self.power.ndim == 1:
+            self.amplitude = self.amplitude[:,None]
         if isinstance(self.power, (np.ndarray)):
             self.metadata["power"] = self.power.tolist()
         else:
-- 
2.43.0


From 59184288e420456a9af6f34544371d757a51083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 30/62] fix: several generated folder names do not exist
 already

---
 src/aspsim/fileutilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..c3d1a06 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -48,8 +48,12 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     base_name = sub_folder_name[:-start_idx_len]
 
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    idx = start_idx
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(idx))
+        if not folder_name.exists():
+            folder_names.append(folder_name)
+        idx += 1
 
     return folder_names
 
-- 
2.43.0


From 9e0ae762fb39b4f5b9b65473b8b0ab9ad355473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 31/62] fix: the highest numbered file is one that exists and
 belongs to the series

---
 src/aspsim/fileutilities.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index c3d1a06..abbea55 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -60,21 +60,19 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
 
 def get_highest_numbered_file(folder, prefix, suffix):
     highest_file_idx = -1
+    highest_file = None
     for file_path in folder.iterdir():
         if file_path.name.startswith(prefix) and file_path.name.endswith(suffix):
             summary_idx = file_path.name[len(prefix) : len(file_path.name) - len(suffix)]
-            try:
-                summary_idx = int(summary_idx)
-                if summary_idx > highest_file_idx:
-                    highest_file_idx = summary_idx
-            except ValueError:
+            if not summary_idx.isdecimal():
                 print("Warning: check prefix and suffix")
+                continue
+            summary_idx = int(summary_idx)
+            if summary_idx > highest_file_idx:
+                highest_file_idx = summary_idx
+                highest_file = file_path
 
-    if highest_file_idx == -1:
-        return None
-    else:
-        fname = prefix + str(highest_file_idx) + suffix
-        return folder.joinpath(fname)
+    return highest_file
 
 
 def find_all_earlier_files(
-- 
2.43.0


From 11e337e241223b66fc1582c65ebae35da1d85007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 32/62] fix: no phase after the last finite phase

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..cb1a506 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From 486083be8bd46133f214fcac4f5ac884530aea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 33/62] fix: events added to a counter do not change the
 definition it was created from

---
 src/aspsim/counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index cb1a506..4cfe0c0 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -110,7 +110,7 @@ class EventCounter:
 
     """
     def __init__(self, event_def):
-        self.event_def = event_def
+        self.event_def = dict(event_def)
         self.event = []
 
         self.freq = {name : freq for name, (freq, offset) in event_def.items()}
-- 
2.43.0


From 41e7f818bfb5d5158ff9c0405777b6b6b5330c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 34/62] fix: bandlimited noise starts without a transient that
 does not scale with the power

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index cb7bd23..dfa1d83 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -224,8 +224,7 @@ class BandlimitedNoiseSource(Source):
         self.testSigPow = np.mean(testSig ** 2)
         self.set_power(power)
 
-        self.zi = spsig.sosfilt_zi(self.filtCoef)
-        self.zi = np.tile(np.expand_dims(self.zi,1), (1,self.num_channels,1))
+        self.zi = np.zeros((self.filtCoef.shape[0], self.num_channels, 2))
 
         self.metadata["frequency span"] = freqLim
 
-- 
2.43.0


From fcee7d9a241559b53c310077710dd0e6e6f8d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:27 +0000
Subject: [PATCH 35/62] fix: the sequences of order 10 are a preferred pair

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index dfa1d83..14c0aa8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -425,7 +425,7 @@ class GoldSequenceSource(Source):
         7: [[4], [4, 5, 6]],
         8: [[1, 2, 3, 6, 7], [1, 2, 7]],
         9: [[5], [3, 5, 6]],
-        10: [[2, 5, 9], [3, 4, 6, 8, 9]],
+        10: [[3], [2, 3, 8]],
         11: [[9], [3, 6, 9]],
     }
 
-- 
2.43.0


From 604e5c2e9d11dc9ade45b39903eca6d75143ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 36/62] fix: a constant time trajectory does not pause before
 it starts over

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..262617b 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments+1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From feb8a34a211069e3c77d8789f70b7dac09cbf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 37/62] fix: plot circular trajectories with short periods

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index 262617b..e94a53a 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(1, max_samples // approx_num_points)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From bfb1533f685364bcf4f7e80bb409465458e06a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 38/62] fix: moving microphones without any sources

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2fca2f7..aaff3cf 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -325,7 +325,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 1c38f0402bbb72624f91724d78004fc18163bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 39/62] fix: only room impulse responses change with moving
 arrays

---
 src/aspsim/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index aaff3cf..48591d7 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -282,6 +282,8 @@ class ArrayCollection():
 
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
+
+        Only the room impulse responses depend on the positions, all other paths are kept. 
         
         Parameters
         ----------
@@ -291,7 +293,8 @@ class ArrayCollection():
             The microphone array
         """
         reverb = self.path_type[src.name][mic.name]
-        assert reverb != "modified"
+        if reverb != "ism":
+            return
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
     def update(self, glob_idx):
-- 
2.43.0


From 53ebaeadd5184696459a645fde684b416aeab42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:12 +0000
Subject: [PATCH 40/62] fix: moving arrays together with arrays without any
 elements

---
 src/aspsim/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 48591d7..ead9a31 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -293,7 +293,7 @@ class ArrayCollection():
             The microphone array
         """
         reverb = self.path_type[src.name][mic.name]
-        if reverb != "ism":
+        if reverb != "ism" or src.num == 0 or mic.num == 0:
             return
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
-- 
2.43.0


From 91b6a0def7070da6a47bc1e56fe2a2c07afb76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 41/62] fix: membership of flat and combined regions is decided
 point by point

---
 src/aspsim/room/region.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..ed07f7e 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.logical_or.reduce([reg.is_in_region(coordinate) for reg in self.regions])
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
@@ -200,13 +200,11 @@ class Rectangle(Region):
         is_in : boolan np.ndarray of shape (N,)
             True if the coordinate is within the region, False otherwise.
         """
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
@@ -270,13 +268,11 @@ class Disc(Region):
         self.volume = self.radius**2 * np.pi
 
     def is_in_region(self, coordinates):
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
-- 
2.43.0


From 3b50343e15133807796aa5d6c2947420183294ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 42/62] fix: combined regions are sampled in proportion to the
 volume of the parts

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index ed07f7e..12f9189 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From 1975e430986e2fd01475e54f424d9e57e4ceab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 43/62] fix: rounding errors do not change the number of grid
 points of a region

---
 src/aspsim/room/region.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 12f9189..d5f76b5 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -96,7 +96,7 @@ class Cuboid(Region):
         else:
             point_dist = np.array(point_dist)
 
-        num_points = np.floor(self.side_lengths / point_dist)
+        num_points = np.floor(np.round(self.side_lengths / point_dist, 9))
         assert min(num_points) >= 1
 
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, point_dist)]
@@ -216,7 +216,7 @@ class Rectangle(Region):
             The number of points returned is determined by the radius, height and point_spacing.
             Each row is a coordinate in 3D or 2D space.
         """
-        num_points = np.floor(self.side_lengths / self.point_spacing)
+        num_points = np.floor(np.round(self.side_lengths / self.point_spacing, 9))
         assert min(num_points) >= 1
 
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, self.point_spacing)]
@@ -278,7 +278,7 @@ class Disc(Region):
     def equally_spaced_points(self):
         point_dist = self.point_spacing
         block_dims = np.array([self.radius*2, self.radius*2])
-        num_points = np.ceil(block_dims / point_dist)
+        num_points = np.ceil(np.round(block_dims / point_dist, 9))
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, point_dist)]
 
         meshed_points = np.meshgrid(*single_axes)
@@ -460,7 +460,7 @@ class Cylinder(Region):
         """
         point_dist = self.point_spacing
         block_dims = np.array([self.radius*2, self.radius*2, self.height])
-        num_points = np.ceil(block_dims / point_dist)
+        num_points = np.ceil(np.round(block_dims / point_dist, 9))
         single_axes = [np.arange(num_p) * p_dist for num_p, p_dist in zip(num_points, point_dist)]
         
         all_points = np.stack(np.meshgrid(*single_axes, indexing="ij"),axis=-1)
-- 
2.43.0


From 7bfd5a54ef105981139f4b5c86f8f39a0515242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 44/62] fix: points on a rectangle follow its perimeter on all
 sides

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..6ab5f0f 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -205,7 +205,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     pos_fixed = pos_fixed[idxs[1]]
     points.append(np.stack([pos_fixed, pos_side], axis=-1))
 
-    pos_side = np.flip(pos_on_circumference[idxs[2]]) - breakpoints[2] - x_extent[1]
+    pos_side = pos_on_circumference[idxs[2]] - breakpoints[2] - x_extent[1]
     pos_side = -pos_side
     pos_fixed = np.full(num_points, fixed_side[2])
     pos_fixed[np.arange(num_points) % 2 == 1] -= extra_side_lengths[1] / 2
-- 
2.43.0


From d24d10badfc6757a3f4e3226f97314f976bdd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 45/62] fix: no point is lost for the largest offset on a
 rectangle

---
 src/aspsim/room/generatepoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 6ab5f0f..1040b29 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -181,7 +181,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     circumference = 2 * np.sum(side_lengths)
     pos_on_circumference = np.linspace(0, circumference, num_points, endpoint = False)
     mic_distance = circumference / num_points
-    pos_on_circumference += offset * mic_distance
+    pos_on_circumference = np.mod(pos_on_circumference + offset * mic_distance, circumference)
 
     x_extent = np.array([-side_lengths[0], side_lengths[0]]) / 2
     y_extent = np.array([-side_lengths[1], side_lengths[1]]) / 2
@@ -189,6 +189,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
 
     points = np.zeros((num_points, 2))
     breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
+    breakpoints[-1] = circumference
     idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
     
     points = []
-- 
2.43.0


From 6684c8712d5081f648115e6a59b0ed4d1bf0208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 46/62] fix: turn the sunflower pattern by the offset angle

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 1040b29..6592b26 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -296,7 +296,7 @@ def sunflower_pattern(N, radius, offset_angle=0):
     # golden ratio
     k = np.arange(1, N + 1)
     r = radius * np.sqrt(k - (1 / 2)) / np.sqrt(N - 1 / 2)
-    theta = k * 2 * np.pi / phisq
+    theta = k * 2 * np.pi / phisq + offset_angle
     [x, y] = pol2cart(r, theta)
     return np.stack((x, y)).T
 
-- 
2.43.0


From c8d34dd6e77b47e533a69476f8729e8efa888ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 47/62] fix: the old rectangle generators return the requested
 number of points on the rectangle

---
 src/aspsim/room/generatepoints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 6592b26..5e92f99 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -449,9 +449,9 @@ def equidistant_rectangle_old(num_points, dims, offset=0.5, z=None):
         numCounter = 0
 
         for i in range(4):
-            numAxisPoints = 1 + int((lengths[i] - startPos) / pointDist)
+            numAxisPoints = 1 + int(np.floor((lengths[i] - startPos) / pointDist))
+            numAxisPoints = min(max(numAxisPoints, 0), num_points - numCounter)
             axisPoints = startPos + np.arange(numAxisPoints) * pointDist
-            distLeft = lengths[i] - axisPoints[-1]
             points[numCounter : numCounter + numAxisPoints, 0] = (
                 xVal[i] + xFac[i] * axisPoints
             )
@@ -459,7 +459,7 @@ def equidistant_rectangle_old(num_points, dims, offset=0.5, z=None):
                 yVal[i] + yFac[i] * axisPoints
             )
             numCounter += numAxisPoints
-            startPos = pointDist - distLeft
+            startPos = startPos + numAxisPoints * pointDist - lengths[i]
     if z is not None:
         points = np.concatenate((points, np.full((points.shape[0], 1), z)), axis=-1)
     return points
@@ -493,9 +493,9 @@ def equidistant_rectangle_for_fewer(num_points, dims):
         numCounter = 0
 
         for i in range(np.min((4, num_points))):
-            numAxisPoints = 1 + int((lengths[i] - startPos) / pointDist)
+            numAxisPoints = 1 + int(np.floor((lengths[i] - startPos) / pointDist))
+            numAxisPoints = min(max(numAxisPoints, 0), num_points - numCounter)
             axisPoints = startPos + np.arange(numAxisPoints) * pointDist
-            distLeft = lengths[i] - axisPoints[-1]
             points[numCounter : numCounter + numAxisPoints, 0] = (
                 xVal[i] + xFac[i] * axisPoints
             )
@@ -503,6 +503,6 @@ def equidistant_rectangle_for_fewer(num_points, dims):
                 yVal[i] + yFac[i] * axisPoints
             )
             numCounter += numAxisPoints
-            startPos = pointDist - distLeft
+            startPos = startPos + numAxisPoints * pointDist - lengths[i]
 
     return points
\ No newline at end of file
-- 
2.43.0


From 0ed1d0741d596eadc7366b65f3a53c4c103d92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 48/62] fix: arrays can be drawn into sound field plots

---
 src/aspsim/array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index ead9a31..3cbb82f 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -573,9 +573,10 @@ class Array(ABC):
         self.group_idxs = group_idxs
         self.metadata["number of groups"] = self.num_groups
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         if self.dynamic:
-            self.trajectory.plot(ax, self.plot_symbol, self.name, sim_info.tot_samples)
+            tot_samples = sim_info.tot_samples if sim_info is not None else None
+            self.trajectory.plot(ax, self.plot_symbol, self.name, tot_samples)
         else:
             ax.plot(self.pos[:,0], self.pos[:,1], self.plot_symbol, label=self.name, alpha=0.8)
 
@@ -638,7 +639,7 @@ class RegionArray(MicArray):
         self.region = region
         self.metadata["region shape"] = self.region.__class__.__name__
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         self.region.plot(ax, self.name)
         
 class ControllableSourceArray(Array):
-- 
2.43.0


From 33ab14dff800e32dade0b245aec67c36004ac18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 49/62] fix: summary diagnostics can be created and read the
 signals they are given

---
 src/aspsim/diagnostics/diagnosticsummary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnosticsummary.py b/src/aspsim/diagnostics/diagnosticsummary.py
index 084364e..ceaa56c 100644
--- a/src/aspsim/diagnostics/diagnosticsummary.py
+++ b/src/aspsim/diagnostics/diagnosticsummary.py
@@ -66,7 +66,7 @@ class SummaryDiagnostic(diacore.Diagnostic):
             export_at = [save_at[1]]
             save_at = diacore.IntervalCounter(((save_at[0], save_at[1]),))
 
-        super().__init__(sim_info, block_size, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
+        super().__init__(sim_info, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
 
 
 
@@ -98,8 +98,8 @@ class SignalPowerRatioSummary(SummaryDiagnostic):
         self.plot_data["title"] = f"Ratio of power: {self.numerator_name} / {self.denom_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.num_power += np.sum(np.mean(np.abs(processor.sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
-        self.denom_power += np.sum(np.mean(np.abs(processor.sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
+        self.num_power += np.sum(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.denom_power += np.sum(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -130,7 +130,7 @@ class SignalPowerSummary(SummaryDiagnostic):
         #self.plot_data["title"] = f"Power of {self.sig_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power += np.sum(np.mean(np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.power += np.sum(np.mean(np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -169,7 +169,7 @@ class SignalPowerSpectrum(SummaryDiagnostic):
         
     def save(self, processor, sig, chunkInterval, globInterval):
         num_samples = chunkInterval[1] - chunkInterval[0]
-        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
+        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
 
         self.sample_counter += num_samples
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
-- 
2.43.0


From dea28bdf2a426833616b476f0b7ade9091bc54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 50/62] fix: StatePower saves and exports at the times asked
 for

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 88dea99..a33265a 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From 52612442762e6ec5cb6507cea7241848029c0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 51/62] fix: SoundfieldPower reads the signals it is given

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index a33265a..409a067 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From e596d787fe2c5301a50fb33afc8897c2445b15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 52/62] fix: the smoothing of a power ratio continues across
 blocks

---
 src/aspsim/diagnostics/diagnostics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 409a067..92d687e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,14 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        smoothing = self.sim_info.output_smoothing
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,smoothing)) / smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,smoothing)) / smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From c0f7d7696351c40b502eaac0e20a21c468ec3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 53/62] fix: single-channel audio files can be loaded

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 14c0aa8..bff3764 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -289,8 +289,7 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
-    assert audio.ndim == 2
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
     #                            Make support for multiple channels (should be simple)")
-- 
2.43.0


From f49907910c51f6acd1351d864093f63407d2ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 54/62] fix: audio files can be loaded at their own rate and
 resampled with all their channels

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index bff3764..f27ab7e 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -296,14 +296,14 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From 9384267bad6d421bd31e06b7954d87e6de3d4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 55/62] fix: silent and empty signals can be exported as audio

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 4323ad3..2fa3d5c 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -348,7 +348,8 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         #         fileName = "_".join((name, proc_name, audio_name, str(time_idx)))
         #     file_path = folder.joinpath(fileName + ".wav")
 
-        signal_to_write = signal / np.max(np.abs(signal))
+        max_val = np.max(np.abs(signal), initial=0)
+        signal_to_write = signal / max_val if max_val > 0 else signal.copy()
         
 
         ramp_length = min(int(0.2*samplerate), int(0.1 * signal_to_write.shape[-1]))
-- 
2.43.0


From d9148ae2b1b807a92173a9214a9a32b29ade109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 56/62] fix: explicitly set paths follow the arrays of an added
 collection

---
 src/aspsim/simulator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index c17db87..02711c7 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -68,6 +68,12 @@ class SimulatorSetup:
             self.arrays.add_array(ar)
         self.arrays.set_path_types(array_collection.path_type)
 
+        # paths that were set explicitly can not be generated again from their type
+        for src_name, src_paths in array_collection.paths.items():
+            for mic_name, path in src_paths.items():
+                if array_collection.path_type[src_name].get(mic_name, "modified") == "modified":
+                    self.arrays.set_prop_path(path, src_name, mic_name)
+
             #if ar.is_source:
             #    self.arrays.paths[ar.name] = {}
 
-- 
2.43.0


From bb13e29456303d3cffa7b26cad7bcefc229f5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 57/62] fix: a preprocessing function cannot change the
 recorded data

---
 src/aspsim/diagnostics/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 4d244ac..4272c1d 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -1,4 +1,5 @@
 import re
+import copy
 import numpy as np
 from abc import abstractmethod
 
@@ -335,6 +336,8 @@ class Diagnostic:
         """
         """
         output = self.get_output()
+        if preprocess:
+            output = copy.deepcopy(output)
         for pp in preprocess:
             output = pp(output)
         return output
-- 
2.43.0


From 39b0e1e71412ee3b1ce280081912a240196ff16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 58/62] fix: compare_soundfields accepts its documented input

---
 src/aspsim/diagnostics/soundfieldplot.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/diagnostics/soundfieldplot.py b/src/aspsim/diagnostics/soundfieldplot.py
index 2287a38..7133ff4 100644
--- a/src/aspsim/diagnostics/soundfieldplot.py
+++ b/src/aspsim/diagnostics/soundfieldplot.py
@@ -12,25 +12,25 @@ def compare_soundfields(pos, sig, algo_labels, row_labels, arrays_to_plot={}):
         
         The resulting plot is multiple axes, numAlgos rows high, and numAxes columns wide"""
     #num_rows, num_cols = sfp.get_num_pixels(pos)
-    pos, sig = sort_for_imshow(pos, sig)
-    if sig.ndim == 2:
-        sig = sig[None,...]
-    if sig.ndim == 3:
-        sig = sig[None,...]
+    sorted_sig = []
+    for algo_sig in sig:
+        pos_sorted, sig_sorted = sort_for_imshow(pos, np.atleast_2d(algo_sig).T)
+        sorted_sig.append(np.moveaxis(sig_sorted, -1, 0))
+    pos, sig = pos_sorted, np.stack(sorted_sig, axis=0)
 
     num_algos = sig.shape[0]
     num_each_algo = sig.shape[1]
-    extent = size_of_2d_plot([pos] + list(arrays_to_plot.values()))
-    extent /= np.max(extent)
+    extent = size_of_2d_plot([pos] + [array.pos for array in arrays_to_plot.values()])
+    extent = extent / np.max(extent)
     scaling = 5
 
-    fig, axes = plt.subplots(num_algos, num_each_algo, figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling))
+    fig, axes = plt.subplots(num_algos, num_each_algo, figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling), squeeze=False)
     fig.tight_layout(pad=2.5)
 
     
 
 
-    for i, rows in enumerate(np.atleast_2d(axes)):
+    for i, rows in enumerate(axes):
         for j, ax in enumerate(rows):
             sf_plot(ax, pos, sig[i,j,:,:], f"{algo_labels[i]}, {row_labels[j]}", arrays_to_plot)
     
-- 
2.43.0


From a5216de90a24ffd1c776ed13e0bfa54233db5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 59/62] fix: create_signal accepts its documented dim lists and
 numpy integers

---
 src/aspsim/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 02711c7..72fab20 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -399,10 +399,10 @@ class Signals():
             dimensionality of the signal. signal will have the shape (*dim, simbuffer+simchunksize)
             where the last axis represents time
         """
-        if isinstance(dim, int):
+        if np.ndim(dim) == 0:
             dim = (dim,)
         assert name not in self.signals
-        self.signals[name] = np.zeros(dim + (self.sim_info.sim_buffer + self.sim_info.sim_chunk_size,))
+        self.signals[name] = np.zeros(tuple(dim) + (self.sim_info.sim_buffer + self.sim_info.sim_chunk_size,))
 
     def _reset_signals(self):
         for name, sig in self.signals.items():
-- 
2.43.0


From b8d3a8fd1869d6bd52aa1ed0e8f135f087f60040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 60/62] fix: a session with other microphone directivities is
 not reused

---
 src/aspsim/array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 3cbb82f..4cf30ba 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -469,6 +469,10 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.array_equal(ar.pos,initialized[ar_name].pos):
             return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if not np.array_equal(ar.directivity_dir, initialized[ar_name].directivity_dir):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-- 
2.43.0


From 88ba9a514efd3c4cddc0e9f6bee9f3a3edfd182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 61/62] fix: the initial state of autocorrelated noise has the
 power of its own channel

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index f27ab7e..cc3cd60 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -380,7 +380,7 @@ class AutocorrSource(Source):
 
     def prepare(self):
         for ch_idx in range(self.num_channels):
-            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
+            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
         return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
-- 
2.43.0


From e2070268818c585b639410a771611cb55492cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 62/62] fix: Gold sequences of order above 11 can be created

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index cc3cd60..f09c3e9 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -448,7 +448,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)[0,:]
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0

