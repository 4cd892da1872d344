From 743e193d8c0879bc3bb930c3e02fcd8cbfe585a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 001/160] fix: drop the removed antennas from eq_coeffs in
 UVData.select

With keep_all_metadata=False only the telescope's own attributes were cut down,
so any blt selection on an object with eq_coeffs left it inconsistent.
---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..a19427c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7126,6 +7126,9 @@ class UVData(UVBase):
             elif key == "Nants_telescope":
                 # Count the number of unique ants after ant-based selection
                 self.telescope.Nants = len(ind_arr)
+                # eq_coeffs is on this object rather than on the telescope
+                if self.eq_coeffs is not None:
+                    self.eq_coeffs = self.eq_coeffs[ind_arr]
 
         # Update the history string
         self.history += history_update_string
-- 
2.43.0


From 7b723669df635ba12800639a4423e0e5315a8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 002/160] fix: make UVData.select honour freq_chans and
 multi-spw frequency choices

freq_chans was turned into frequencies, so channels that share a frequency with a
requested channel (flex-pol objects, overlapping spws) were kept too, and tuples or
scalars together with frequencies failed. A selection with no two channels in the
same spw failed when looking at the channel separation.
---
 src/pyuvdata/uvdata/uvdata.py | 55 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a19427c..93d1f54 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6873,43 +6873,40 @@ class UVData(UVBase):
 
             blt_inds = sorted(set(blt_inds))
 
-        if freq_chans is not None:
-            freq_chans = utils.tools._get_iterable(freq_chans)
-            if np.array(freq_chans).ndim > 1:
-                freq_chans = np.array(freq_chans).flatten()
-            if frequencies is None:
-                frequencies = self.freq_array[freq_chans]
-            else:
-                frequencies = utils.tools._get_iterable(frequencies)
-                frequencies = np.sort(
-                    list(set(frequencies) | set(self.freq_array[freq_chans]))
-                )
-
-        if frequencies is not None:
-            frequencies = utils.tools._get_iterable(frequencies)
-            if np.array(frequencies).ndim > 1:
-                frequencies = np.array(frequencies).flatten()
+        if frequencies is not None or freq_chans is not None:
             if n_selects > 0:
                 history_update_string += ", frequencies"
             else:
                 history_update_string += "frequencies"
             n_selects += 1
 
-            freq_arr_use = self.freq_array
-            # Check and see that all requested freqs are available
-            freq_check = np.isin(frequencies, freq_arr_use)
-            if not np.all(freq_check):
-                raise ValueError(
-                    "Frequency %g is not present in the freq_array"
-                    % frequencies[np.where(~freq_check)[0][0]]
+            freq_inds = np.zeros(0, dtype=np.int64)
+            if freq_chans is not None:
+                # keep these as indices, frequencies can be repeated across spws
+                freq_chans = np.asarray(utils.tools._get_iterable(freq_chans)).flatten()
+                freq_inds = np.arange(self.Nfreqs)[freq_chans]
+
+            if frequencies is not None:
+                frequencies = np.asarray(
+                    utils.tools._get_iterable(frequencies)
+                ).flatten()
+                # Check and see that all requested freqs are available
+                freq_check = np.isin(frequencies, self.freq_array)
+                if not np.all(freq_check):
+                    raise ValueError(
+                        "Frequency %g is not present in the freq_array"
+                        % frequencies[np.where(~freq_check)[0][0]]
+                    )
+                freq_inds = np.append(
+                    freq_inds, np.where(np.isin(self.freq_array, frequencies))[0]
                 )
-            freq_inds = np.where(np.isin(freq_arr_use, frequencies))[0]
+            freq_inds = np.unique(freq_inds)
 
-            if len(frequencies) > 1:
-                freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
-                freq_ind_separation = freq_ind_separation[
-                    np.diff(self.flex_spw_id_array[freq_inds]) == 0
-                ]
+            freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
+            freq_ind_separation = freq_ind_separation[
+                np.diff(self.flex_spw_id_array[freq_inds]) == 0
+            ]
+            if freq_ind_separation.size > 0:
                 if not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
-- 
2.43.0


From f6b0aa3a45b2f003cb3bd3c3406b537c138a50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:07 +0000
Subject: [PATCH 003/160] fix: reorder scan_number_array along with the other
 arrays in UVData.reorder_blts

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 93d1f54..1265af9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4039,6 +4039,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
-- 
2.43.0


From b4625367adb6ff05052392d70da8ea48d5cedf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:07 +0000
Subject: [PATCH 004/160] fix: move flags and nsamples with the data when
 UVData.conjugate_bls swaps pols

---
 src/pyuvdata/uvdata/uvdata.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1265af9..174c17f 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3685,10 +3685,20 @@ class UVData(UVBase):
 
             if not self.metadata_only:
                 orig_data_array = copy.copy(self.data_array)
+                orig_flag_array = copy.copy(self.flag_array)
+                orig_nsample_array = copy.copy(self.nsample_array)
                 for pol_ind in np.arange(self.Npols):
-                    self.data_array[index_array, :, new_pol_inds[pol_ind]] = np.conj(
+                    new_ind = new_pol_inds[pol_ind]
+                    self.data_array[index_array, :, new_ind] = np.conj(
                         orig_data_array[index_array, :, pol_ind]
                     )
+                    # the flags and nsamples belong to the same visibilities
+                    self.flag_array[index_array, :, new_ind] = orig_flag_array[
+                        index_array, :, pol_ind
+                    ]
+                    self.nsample_array[index_array, :, new_ind] = orig_nsample_array[
+                        index_array, :, pol_ind
+                    ]
 
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
-- 
2.43.0


From ccbb33ba03b8575d77fd7e61123c5942290b8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:07 +0000
Subject: [PATCH 005/160] fix: do not keep a stale blt_order and rectangularity
 in UVData.conjugate_bls

---
 src/pyuvdata/uvdata/uvdata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 174c17f..863607f 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3710,6 +3710,11 @@ class UVData(UVBase):
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
 
+            # the order and the shape of the blt axis depend on the baselines
+            self.blt_order = None
+            if self.blts_are_rectangular is not None:
+                self.set_rectangularity(force=True)
+
     def reorder_pols(
         self,
         order="AIPS",
-- 
2.43.0


From 2db6d9dcd50670e28113b64c0d8b22a8f180a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:36 +0000
Subject: [PATCH 006/160] fix: work out the rectangularity from the baselines
 and times, not from blt_order

After reorder_blts(autos_first=True) blt_order does not describe the whole axis, so
a time or baseline ordered object was wrongly marked as rectangular.
---
 src/pyuvdata/uvdata/uvdata.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 863607f..8389486 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3815,7 +3815,6 @@ class UVData(UVBase):
             baseline_array=self.baseline_array,
             nbls=self.Nbls,
             ntimes=self.Ntimes,
-            blt_order=self.blt_order,
         )
         self.blts_are_rectangular = rect
         self.time_axis_faster_than_bls = time
-- 
2.43.0


From 1f48e933d111b79d4885208d3ac0ed482c22a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:01 +0000
Subject: [PATCH 007/160] fix: put the data of the second object at its own
 labels in UVData.__add__

The visibilities of other were assigned in the order its elements have on the combined
axes, so they were scrambled when the new and the overlapping elements of an axis
interleave, or when self had to be reordered first.
---
 src/pyuvdata/uvdata/uvdata.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8389486..98ba44c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5576,6 +5576,7 @@ class UVData(UVBase):
                 ]
 
                 this.reorder_blts(order=temp_ind)
+                this_blts = this_blts[temp_ind]
 
         if len(this_freq_ind) != 0:
             this_argsort = np.argsort(this_freq_ind)
@@ -5723,20 +5724,18 @@ class UVData(UVBase):
                 ).astype(np.bool_)
 
         # Now populate the data
-        pol_t2o = np.nonzero(
-            np.isin(this.polarization_array, other.polarization_array)
-        )[0]
-        this_freqs = this.freq_array
-        other_freqs = other.freq_array
-
-        freq_t2o = np.zeros(this_freqs.shape, dtype=bool)
-        for spw_id in set(this.spw_array).intersection(other.spw_array):
-            mask = this.flex_spw_id_array == spw_id
-            freq_t2o[mask] |= np.isin(
-                this_freqs[mask], other_freqs[other.flex_spw_id_array == spw_id]
-            )
-        freq_t2o = np.nonzero(freq_t2o)[0]
-        blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
+        # Find where each element of other went, in the order they are in on other.
+        pol_loc = {pol: ind for ind, pol in enumerate(this.polarization_array)}
+        pol_t2o = np.array([pol_loc[pol] for pol in other.polarization_array])
+        freq_loc = {
+            key: ind
+            for ind, key in enumerate(zip(this.flex_spw_id_array, this.freq_array))
+        }
+        freq_t2o = np.array(
+            [freq_loc[key] for key in zip(other.flex_spw_id_array, other.freq_array)]
+        )
+        blt_loc = {blt: ind for ind, blt in enumerate(this_blts)}
+        blt_t2o = np.array([blt_loc[blt] for blt in other_blts])
 
         if not self.metadata_only:
             this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
-- 
2.43.0


From 359dd302861dbb629a4069d64bd362ae132bcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 008/160] fix: combine scan_number_array and eq_coeffs in
 UVData.__add__ and fast_concat

---
 src/pyuvdata/uvdata/uvdata.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 98ba44c..40f2330 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5647,6 +5647,14 @@ class UVData(UVBase):
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
             )[blt_order]
+            if this.scan_number_array is not None:
+                if other.scan_number_array is None:
+                    # the scans are not known for all the blts.
+                    this.scan_number_array = None
+                else:
+                    this.scan_number_array = np.concatenate(
+                        [this.scan_number_array, other.scan_number_array[bnew_inds]]
+                    )[blt_order]
 
         f_order = None
         if len(fnew_inds) > 0:
@@ -5656,6 +5664,14 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width, other.channel_width[fnew_inds]]
             )
+            if this.eq_coeffs is not None:
+                if other.eq_coeffs is None:
+                    # the coefficients are not known for all the channels.
+                    this.eq_coeffs = None
+                else:
+                    this.eq_coeffs = np.concatenate(
+                        [this.eq_coeffs, other.eq_coeffs[:, fnew_inds]], axis=1
+                    )
 
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array, other.flex_spw_id_array[fnew_inds]]
@@ -5761,6 +5777,8 @@ class UVData(UVBase):
             this.freq_array = this.freq_array[f_order]
             this.channel_width = this.channel_width[f_order]
             this.flex_spw_id_array = this.flex_spw_id_array[f_order]
+            if this.eq_coeffs is not None:
+                this.eq_coeffs = this.eq_coeffs[:, f_order]
 
         if len(pnew_inds) > 0:
             this.polarization_array = this.polarization_array[p_order]
@@ -6095,6 +6113,14 @@ class UVData(UVBase):
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
             )
+            if this.eq_coeffs is not None:
+                if any(obj.eq_coeffs is None for obj in other):
+                    # the coefficients are not known for all the channels.
+                    this.eq_coeffs = None
+                else:
+                    this.eq_coeffs = np.concatenate(
+                        [this.eq_coeffs] + [obj.eq_coeffs for obj in other], axis=1
+                    )
             this.spw_array = np.concatenate(
                 [this.spw_array] + [obj.spw_array for obj in other]
             )
@@ -6196,6 +6222,15 @@ class UVData(UVBase):
                 [this.phase_center_id_array]
                 + [obj.phase_center_id_array for obj in other]
             )
+            if this.scan_number_array is not None:
+                if any(obj.scan_number_array is None for obj in other):
+                    # the scans are not known for all the blts.
+                    this.scan_number_array = None
+                else:
+                    this.scan_number_array = np.concatenate(
+                        [this.scan_number_array]
+                        + [obj.scan_number_array for obj in other]
+                    )
             if not self.metadata_only:
                 this.data_array = np.concatenate(
                     [this.data_array] + [obj.data_array for obj in other], axis=0
-- 
2.43.0


From 12cf5a89c66594180527a0a17b2474283e370714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:42 +0000
Subject: [PATCH 009/160] fix: keep the phase center ids of all objects
 consistent in UVData.fast_concat

---
 src/pyuvdata/uvdata/uvdata.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 40f2330..664fd16 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6019,17 +6019,14 @@ class UVData(UVBase):
             )
 
         # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
-        uv_list = [this] + other
-        while len(uv_list) > 1:
-            for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                uv1._consolidate_phase_center_catalogs(
-                    other=uv2, ignore_name=ignore_name
-                )
-            uv_list = uv_list[0::2]
-        # Because self was at the beginning of the list,
-        # all the phase centers are merged into it at the end of this loop
+        # First give the phase centers of each object the IDs they have on this one,
+        # then add the ones that are new to this one. That way the IDs assigned for
+        # the earlier objects are not changed by the later ones.
+        for obj in other:
+            obj._consolidate_phase_center_catalogs(
+                reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+            )
+            this._consolidate_phase_center_catalogs(other=obj, ignore_name=ignore_name)
 
         compatibility_params = ["_vis_units", "_telescope"]
 
-- 
2.43.0


From 236b3afd8bb9f113f6ac8d5d17f57ac361dfa7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:58 +0000
Subject: [PATCH 010/160] fix: do not mix channels of different spectral
 windows in UVData.__add__

---
 src/pyuvdata/uvdata/uvdata.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 664fd16..40b86b3 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5578,17 +5578,6 @@ class UVData(UVBase):
                 this.reorder_blts(order=temp_ind)
                 this_blts = this_blts[temp_ind]
 
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nfreqs)
-                temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                    this_freq_ind[other_argsort]
-                ]
-
-                this.reorder_freqs(channel_order=temp_ind)
-
         if len(this_pol_ind) != 0:
             this_argsort = np.argsort(this_pol_ind)
             other_argsort = np.argsort(other_pol_ind)
-- 
2.43.0


From 8228949e7f2a05e731b2b70d58da7e945645962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 011/160] fix: do not keep a stale blt_order in
 UVData.fast_concat

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 40b86b3..4142af4 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6228,6 +6228,10 @@ class UVData(UVBase):
                     [this.flag_array] + [obj.flag_array for obj in other], axis=0
                 )
 
+        # Reset blt_order if blt axis was added to
+        if axis == "blt":
+            this.blt_order = None
+
         # update filename attribute
         for obj in other:
             this.filename = utils.tools._combine_filenames(this.filename, obj.filename)
-- 
2.43.0


From 7b7d203009ed92ecc49f873606d1223d9473ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 012/160] fix: do not lose entries when slicify gets descending
 indices

---
 src/pyuvdata/utils/tools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..fdd21d6 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -175,7 +175,14 @@ def slicify(ind: slice | None | IterableType[int]) -> slice | None | IterableTyp
         return None
 
     if len(set(np.ediff1d(ind))) <= 1:
-        return slice(ind[0], ind[-1] + 1, ind[1] - ind[0] if len(ind) > 1 else 1)
+        step = ind[1] - ind[0] if len(ind) > 1 else 1
+        if step > 0:
+            return slice(ind[0], ind[-1] + 1, step)
+        elif step < 0:
+            return slice(ind[0], ind[-1] - 1 if ind[-1] > 0 else None, step)
+        else:
+            # repeated indices, can't slicify
+            return ind
     else:
         # can't slicify
         return ind
-- 
2.43.0


From 53deb9f7cce2ad3f8ae17d19d62183c9a11feffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:09 +0000
Subject: [PATCH 013/160] fix: UVData getters when a polarization exists for
 one orientation of a baseline only

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4142af4..b635cae 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2791,6 +2791,7 @@ class UVData(UVBase):
                     pol_ind1 = np.where(self.polarization_array == pol)[0]
                     if pol_ind1.size == 0:
                         pol_ind1 = None
+                        blt_ind1 = None
 
             if blt_ind2 is None:
                 pol_ind2 = None
@@ -2818,6 +2819,7 @@ class UVData(UVBase):
                     ]
                     if pol_ind2.size == 0:
                         pol_ind2 = None
+                        blt_ind2 = None
 
             pol_ind = (pol_ind1, pol_ind2)
             if (blt_ind1 is None or pol_ind1 is None) and (
-- 
2.43.0


From 358479caace7bdbbeae12482e9f3bb48aa6c79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 014/160] fix: update the phases of projected baselines in
 update_antenna_positions(delta_antpos=True)

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index b635cae..44738ee 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5070,9 +5070,9 @@ class UVData(UVBase):
                 # Also Note that the old values here are being treated as zeros since
                 # we've calcualted relative deltas.
                 self._apply_w_proj(
-                    new_w_vals=0.0,
-                    old_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
-                    select_mask=self._check_for_cat_type("unprojected"),
+                    new_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
+                    old_w_vals=0.0,
+                    select_mask=~self._check_for_cat_type("unprojected"),
                 )
 
             # Assign the new antenna position values.
-- 
2.43.0


From e49e3b3d67d77cac8914e198fbeff570d2f1de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 015/160] fix: leave unprojected data alone in
 set_uvws_from_antenna_positions

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 44738ee..f99ab87 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4985,10 +4985,12 @@ class UVData(UVBase):
         if np.any(~unprojected_blts):
             # At least some are phased
             if update_vis:
-                old_w_vals = self.uvw_array[:, 2].copy()
-                # Treat the unprojected values as having no w-proj previously
-                old_w_vals[unprojected_blts] = 0.0
-                self._apply_w_proj(new_w_vals=new_uvw[:, 2], old_w_vals=old_w_vals)
+                # No phases are touched for the unprojected baselines
+                self._apply_w_proj(
+                    new_w_vals=new_uvw[:, 2],
+                    old_w_vals=self.uvw_array[:, 2],
+                    select_mask=~unprojected_blts,
+                )
             else:
                 warnings.warn(
                     "Recalculating uvw_array without adjusting visibility "
-- 
2.43.0


From a5252c25ed9adc3c10535f6ad90a700cb15e7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 016/160] fix: only change the uvws of the selected baselines
 in unproject_phase

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f99ab87..b794ae0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4390,7 +4390,7 @@ class UVData(UVBase):
         self._apply_w_proj(
             new_w_vals=0.0, old_w_vals=self.uvw_array[:, 2], select_mask=select_mask_use
         )
-        self.uvw_array = new_uvw
+        self.uvw_array[select_mask_use] = new_uvw[select_mask_use]
 
         # remove/update phase center
         match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-- 
2.43.0


From ee7704a4593625e3acf285705f57e4207767f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 017/160] fix: allow select_mask together with
 use_ant_pos=False in UVData.phase

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index b794ae0..3604551 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4830,9 +4830,9 @@ class UVData(UVBase):
             antenna_numbers=self.telescope.antenna_numbers,
             ant_1_array=ant_1_array,
             ant_2_array=ant_2_array,
-            old_app_ra=old_app_ra,
-            old_app_dec=old_app_dec,
-            old_frame_pa=old_frame_pa,
+            old_app_ra=old_app_ra[select_mask],
+            old_app_dec=old_app_dec[select_mask],
+            old_frame_pa=old_frame_pa[select_mask],
             telescope_lat=self.telescope.location.lat.rad,
             telescope_lon=self.telescope.location.lon.rad,
         )
-- 
2.43.0


From 5f1b0717c91c677d386bbf00f15e83ed9f662eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 018/160] fix: use the radial velocity of the catalog in
 _set_app_coords_helper

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 3604551..4e4b9b8 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1570,7 +1570,7 @@ class UVData(UVBase):
                 frame = temp_dict.get("cat_frame")
                 pm_ra = temp_dict.get("cat_pm_ra")
                 pm_dec = temp_dict.get("cat_pm_dec")
-                vrad = temp_dict.get("vrad")
+                vrad = temp_dict.get("cat_vrad")
                 dist = temp_dict.get("cat_dist")
 
                 app_ra[select_mask], app_dec[select_mask] = phs_utils.calc_app_coords(
-- 
2.43.0


From 104eaf87d6e8b01ca87bf50839086e73f7e31ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 019/160] fix: use the looked up frame, epoch and type in
 UVData.phase(lookup_name=True)

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4e4b9b8..b16d6b0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4806,14 +4806,14 @@ class UVData(UVBase):
         )
 
         # Now calculate position angles.
-        if not phase_frame == "altaz":
+        if not phase_dict["cat_frame"] == "altaz":
             new_frame_pa = phs_utils.calc_frame_pos_angle(
                 time_array=time_array,
                 app_ra=new_app_ra,
                 app_dec=new_app_dec,
                 telescope_loc=self.telescope.location,
-                ref_frame=phase_frame,
-                ref_epoch=epoch,
+                ref_frame=phase_dict["cat_frame"],
+                ref_epoch=phase_dict["cat_epoch"],
             )
         else:
             new_frame_pa = np.zeros(time_array.shape, dtype=float)
@@ -4856,7 +4856,7 @@ class UVData(UVBase):
         )
 
         # Extract out information for applying w-projection
-        if cat_type == "unprojected":
+        if phase_dict["cat_type"] == "unprojected":
             new_w_vals = 0.0
         else:
             # Create a blank array and fill in w-vals based on the selection mask, so
-- 
2.43.0


From 529f3e6ae44c0708944acf88c5c751a8405141d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 020/160] fix: do not overwrite a phase center of the same name
 in UVData.phase

---
 src/pyuvdata/uvdata/uvdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index b16d6b0..63b28f1 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4837,6 +4837,12 @@ class UVData(UVBase):
             telescope_lon=self.telescope.location.lon.rad,
         )
 
+        # Do not overwrite a catalog entry which is still in use elsewhere
+        not_selected = np.ones(self.Nblts, dtype=bool)
+        not_selected[select_mask] = False
+        if phase_dict["cat_id"] in self.phase_center_id_array[not_selected]:
+            phase_dict["cat_id"] = None
+
         # With all operations complete, we now start manipulating the UVData object
         cat_id = self._add_phase_center(
             cat_name=phase_dict["cat_name"],
-- 
2.43.0


From 877c93ebf07178d46aceffe5044b7274d9704729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 021/160] fix: merge_phase_centers with a phase center named
 twice

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 63b28f1..9a5692e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1207,6 +1207,9 @@ class UVData(UVBase):
                     raise ValueError(f"No entry with the ID {cat} in the catalog.")
                 cat_id_list.append(cat)
 
+        # Phase centers can be named more than once
+        cat_id_list = list(dict.fromkeys(cat_id_list))
+
         # Check for the no-op
         if len(cat_id_list) < 2:
             warnings.warn(
-- 
2.43.0


From 0aab902bddb8bc72eaf53546986bad0881a993f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 022/160] fix: split_phase_center did nothing when the new name
 is left to its default

---
 src/pyuvdata/uvdata/uvdata.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9a5692e..f4cd957 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1119,23 +1119,13 @@ class UVData(UVBase):
             if new_name is not None:
                 self.rename_phase_center(new_id, new_name)
         else:
-            temp_dict = self.phase_center_catalog[cat_id]
-            cat_id = self._add_phase_center(
-                temp_dict["cat_name"] if new_name is None else new_name,
-                cat_type=temp_dict["cat_type"],
-                cat_lon=temp_dict.get("cat_lon"),
-                cat_lat=temp_dict.get("cat_lat"),
-                cat_frame=temp_dict.get("cat_frame"),
-                cat_epoch=temp_dict.get("cat_epoch"),
-                cat_times=temp_dict.get("cat_times"),
-                cat_pm_ra=temp_dict.get("cat_pm_ra"),
-                cat_pm_dec=temp_dict.get("cat_pm_dec"),
-                cat_dist=temp_dict.get("cat_dist"),
-                cat_vrad=temp_dict.get("cat_vrad"),
-                cat_id=new_id,
-                force_update=True,
-            )
-            self.phase_center_id_array[select_mask] = cat_id
+            # Add the entry directly, it can be identical to the one being split.
+            new_entry = copy.deepcopy(self.phase_center_catalog[cat_id])
+            if new_name is not None:
+                new_entry["cat_name"] = new_name
+            self.phase_center_catalog[new_id] = new_entry
+            self.Nphase = len(self.phase_center_catalog)
+            self.phase_center_id_array[select_mask] = new_id
 
     def merge_phase_centers(
         self, catalog_identifier, *, force_merge=False, ignore_name=False
-- 
2.43.0


From 18683fe4982bdabb026abe4ef14428c25445e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 023/160] fix: calc_frame_pos_angle near the poles and for
 repeated coordinates

---
 src/pyuvdata/utils/phasing.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 994c165..0d644dd 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1638,13 +1638,9 @@ def calc_frame_pos_angle(
     # This creates an array of unique entries of ra + dec + time, since the processing
     # time for each element can be non-negligible, and entries along the Nblt axis can
     # be highly redundant.
-    unique_mask = np.union1d(
-        np.union1d(
-            np.unique(app_ra, return_index=True)[1],
-            np.unique(app_dec, return_index=True)[1],
-        ),
-        np.unique(time_array, return_index=True)[1],
-    )
+    unique_mask = np.unique(
+        np.stack((app_ra, app_dec, time_array)), axis=1, return_index=True
+    )[1]
 
     # Pluck out the unique entries for each
     unique_ra = app_ra[unique_mask]
@@ -1658,7 +1654,8 @@ def calc_frame_pos_angle(
     # 1 deg arc.
     up_dec = unique_dec + offset_pos
     dn_dec = unique_dec - offset_pos
-    up_ra = dn_ra = unique_ra
+    up_ra = unique_ra.copy()
+    dn_ra = unique_ra.copy()
 
     # Wrap the positions if they happen to go over the poles
     up_ra[up_dec > (np.pi / 2.0)] = np.mod(
@@ -1667,9 +1664,9 @@ def calc_frame_pos_angle(
     up_dec[up_dec > (np.pi / 2.0)] = np.pi - up_dec[up_dec > (np.pi / 2.0)]
 
     dn_ra[-dn_dec > (np.pi / 2.0)] = np.mod(
-        dn_ra[dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
+        dn_ra[-dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
     )
-    dn_dec[-dn_dec > (np.pi / 2.0)] = np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
+    dn_dec[-dn_dec > (np.pi / 2.0)] = -np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
 
     # Run the set of offset coordinates through the "reverse" transform. The two offset
     # positions are concat'd together to help reduce overheads
-- 
2.43.0


From 1d4677eeb108b7641d095be3f88bc1188817d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:50 +0000
Subject: [PATCH 024/160] fix: hour angle sign of driftscan phase centers in
 calc_app_coords

---
 src/pyuvdata/utils/phasing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 0d644dd..770355e 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2198,9 +2198,9 @@ def calc_app_coords(
         unique_app_ha, unique_app_dec = erfa.ae2hd(
             lon_coord, lat_coord, site_loc.lat.rad
         )
-        # The above returns HA/Dec, so we just need to rotate by
+        # The above returns HA/Dec, so we just need to subtract from
         # the LST to get back app RA and Dec
-        unique_app_ra = np.mod(unique_app_ha + unique_lst, 2 * np.pi)
+        unique_app_ra = np.mod(unique_lst - unique_app_ha, 2 * np.pi)
         unique_app_dec = unique_app_dec + np.zeros_like(unique_app_ra)
     elif coord_type == "ephem":
         interp_ra, interp_dec, _, _ = interpolate_ephem(
-- 
2.43.0


From 7935da65dd2058e8716aedeb69251cb0cbe901b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 025/160] fix: do not drop integrations within the tolerance of
 max_int_time in upsample_in_time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f4cd957..b99385c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7615,7 +7615,7 @@ class UVData(UVBase):
             i0 = i1
 
         # harmonize temporary arrays with existing ones
-        inds_to_keep = np.nonzero(self.integration_time <= max_int_time)
+        inds_to_keep = np.delete(np.arange(self.Nblts), inds_to_upsample[0])
         self._harmonize_resample_arrays(
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
-- 
2.43.0


From 7459cbdefbf90f75b2f638b146c8c45b7470da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 026/160] fix: keep the other phase centers when resampling
 unprojected or driftscan data in time

---
 src/pyuvdata/uvdata/uvdata.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index b99385c..ee9e323 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7519,7 +7519,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7535,7 +7535,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave the data which are projected to other phase centers alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # we want the ceil of this, but we don't want to get the wrong answer
         # when the number is very close to an integer but just barely above it.
@@ -7647,7 +7650,7 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            continue
                     else:
                         select_mask = None
                     self.phase(
@@ -7898,7 +7901,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7914,7 +7917,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave the data which are projected to other phase centers alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # make temporary arrays
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
@@ -8116,7 +8122,7 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            continue
                     else:
                         select_mask = None
                     self.phase(
-- 
2.43.0


From f25840401de32afdd6cba4f11a4776c4026d025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 027/160] fix: downsample_in_time with baselines that only have
 one time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ee9e323..1cd3dc1 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7865,7 +7865,7 @@ class UVData(UVBase):
                         "The output may include averages across long "
                         "time gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
-                elif not np.isclose(
+                elif dtime.size > 0 and not np.isclose(
                     dtime[0],
                     int_times[0],
                     rtol=self._integration_time.tols[0],
-- 
2.43.0


From ee2f7e97ddbfca320d2b3c4c30ad539f2bba7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 028/160] fix: update the counts when downsample_in_time drops
 whole baselines

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1cd3dc1..c631415 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7416,6 +7416,8 @@ class UVData(UVBase):
 
         # update metadata
         self.Nblts = self.baseline_array.shape[0]
+        self.Nbls = np.unique(self.baseline_array).size
+        self.Nants_data = self._calc_nants_data()
         self.Ntimes = np.unique(self.time_array).size
         self.uvw_array = np.zeros((self.Nblts, 3))
 
-- 
2.43.0


From 59e26bfa455f95ad43fb91b72dc7675d33034414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 029/160] fix: resample scan_number_array along with the other
 arrays

---
 src/pyuvdata/uvdata/uvdata.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index c631415..47d6c1e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7373,6 +7373,7 @@ class UVData(UVBase):
         inds_to_keep,
         temp_baseline,
         temp_id_array,
+        temp_scan,
         temp_time,
         temp_int_time,
         temp_data,
@@ -7397,6 +7398,10 @@ class UVData(UVBase):
         self.phase_center_id_array = np.concatenate(
             (self.phase_center_id_array, temp_id_array)
         )
+        if self.scan_number_array is not None:
+            self.scan_number_array = np.concatenate(
+                (self.scan_number_array[inds_to_keep], temp_scan)
+            )
         if not self.metadata_only:
             self.data_array = self.data_array[inds_to_keep]
             self.flag_array = self.flag_array[inds_to_keep]
@@ -7556,6 +7561,7 @@ class UVData(UVBase):
 
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
+        temp_scan = np.zeros((temp_Nblts,), dtype=int)
         if initial_nphase_ids > 1 and initial_driftscan:
             temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         else:
@@ -7581,6 +7587,8 @@ class UVData(UVBase):
             i1 = i0 + n_new_samples[i]
             temp_baseline[i0:i1] = self.baseline_array[ind]
             temp_id_array[i0:i1] = self.phase_center_id_array[ind]
+            if self.scan_number_array is not None:
+                temp_scan[i0:i1] = self.scan_number_array[ind]
             if initial_nphase_ids > 1:
                 if initial_driftscan:
                     temp_initial_ids[i0:i1] = initial_ids[ind]
@@ -7625,6 +7633,7 @@ class UVData(UVBase):
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
             temp_id_array=temp_id_array,
+            temp_scan=temp_scan,
             temp_time=temp_time,
             temp_int_time=temp_int_time,
             temp_data=temp_data,
@@ -7927,6 +7936,7 @@ class UVData(UVBase):
         # make temporary arrays
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
+        temp_scan = np.zeros((temp_Nblts,), dtype=int)
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
         if initial_nphase_ids > 1 and initial_driftscan:
@@ -7993,6 +8003,8 @@ class UVData(UVBase):
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
+                    if self.scan_number_array is not None:
+                        temp_scan[temp_idx] = self.scan_number_array[averaging_idx[0]]
                     if initial_nphase_ids > 1:
                         if initial_unprojected:
                             unique_unprojected = np.unique(
@@ -8097,6 +8109,7 @@ class UVData(UVBase):
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
             temp_id_array=temp_id_array,
+            temp_scan=temp_scan,
             temp_time=temp_time,
             temp_int_time=temp_int_time,
             temp_data=temp_data,
-- 
2.43.0


From 59cedb6563cf379bda19d0e3080c40625064e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 030/160] fix: fully flagged channels of later spectral windows
 in frequency_average

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 47d6c1e..09f85f3 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8492,10 +8492,10 @@ class UVData(UVBase):
                         # May not happen due to propagate_flags keyword
                         # mask should be left alone otherwise
                         fully_flagged = np.all(
-                            reg_mask[ax0_inds, this_chan, :, ax2_inds], axis=1
+                            reg_mask[ax0_inds, chan_ind, :, ax2_inds], axis=1
                         )
                         ff_inds = np.nonzero(fully_flagged)
-                        reg_mask[ax0_inds[ff_inds], this_chan, :, ax2_inds[ff_inds]] = (
+                        reg_mask[ax0_inds[ff_inds], chan_ind, :, ax2_inds[ff_inds]] = (
                             False
                         )
                 if this_ragged:
-- 
2.43.0


From 64db3faf38b2659485084ccd45408a42be6414fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 031/160] fix: drop spectral windows without channels in
 frequency_average(keep_ragged=False)

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 09f85f3..065b6bb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8585,6 +8585,16 @@ class UVData(UVBase):
         # update Nfreqs
         self.Nfreqs = final_nchan
 
+        # drop the spws that have no channels left
+        spws_left = np.isin(self.spw_array, final_flex_spw_id_array)
+        if not np.all(spws_left):
+            self.spw_array = self.spw_array[spws_left]
+            self.Nspws = self.spw_array.size
+            if self.flex_spw_polarization_array is not None:
+                self.flex_spw_polarization_array = self.flex_spw_polarization_array[
+                    spws_left
+                ]
+
     def get_redundancies(
         self,
         *,
-- 
2.43.0


From 325608475ce01311907eedf008da8c86e74fcbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:58 +0000
Subject: [PATCH 032/160] fix: frequency_average on single channel data with
 eq_coeffs

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 065b6bb..30f3ede 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8340,7 +8340,7 @@ class UVData(UVBase):
 
         if self.eq_coeffs is not None:
             eq_coeff_diff = np.diff(self.eq_coeffs, axis=1)
-            if np.abs(np.max(eq_coeff_diff)) > 0:
+            if np.any(eq_coeff_diff != 0):
                 warnings.warn(
                     "eq_coeffs vary by frequency. They should be "
                     "applied to the data using `remove_eq_coeffs` "
-- 
2.43.0


From 6efefbe2a465dc084320ff0468d0be5f2b8cdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:36 +0000
Subject: [PATCH 033/160] fix: keep the data of the object when its metadata do
 not match the uvh5 file

---
 src/pyuvdata/uvdata/uvh5.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..15b9131 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1586,19 +1586,21 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
-        if self != uvd_file:
+        headers_match = self == uvd_file
+
+        # clean up after ourselves
+        if replace_data:
+            self.data_array = data_array
+        if replace_flags:
+            self.flag_array = flag_array
+        if replace_nsamples:
+            self.nsample_array = nsample_array
+        del uvd_file
+
+        if not headers_match:
             raise AssertionError(
                 "The object metadata in memory and metadata on disk are different"
             )
-        else:
-            # clean up after ourselves
-            if replace_data:
-                self.data_array = data_array
-            if replace_flags:
-                self.flag_array = flag_array
-            if replace_nsamples:
-                self.nsample_array = nsample_array
-            del uvd_file
         return
 
     def write_uvh5_part(
-- 
2.43.0


From caecbf83a96941499abee210736741772e32a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 034/160] fix: determine_blt_order for data sorted in more than
 one way

---
 src/pyuvdata/utils/bltaxis.py | 29 -----------------------------
 1 file changed, 29 deletions(-)

diff --git a/src/pyuvdata/utils/bltaxis.py b/src/pyuvdata/utils/bltaxis.py
index e67c28f..9d7da8a 100644
--- a/src/pyuvdata/utils/bltaxis.py
+++ b/src/pyuvdata/utils/bltaxis.py
@@ -94,35 +94,6 @@ def determine_blt_order(
         ):
             break
 
-    if Nbls > 1 and Ntimes > 1:
-        assert not (
-            (time_bl and bl_time)
-            or (time_a and a_time)
-            or (time_b and b_time)
-            or (time_order and a_order)
-            or (time_order and b_order)
-            or (a_order and b_order)
-            or (time_order and bl_order)
-        ), (
-            "Something went wrong when trying to determine the order of the blts axis. "
-            "Please raise an issue on github, as this is not meant to happen."
-            "None of the following should ever be True: \n"
-            f"\ttime_bl and bl_time: {time_bl and bl_time}\n"
-            f"\ttime_a and a_time: {time_a and a_time}\n"
-            f"\ttime_b and b_time: {time_b and b_time}\n"
-            f"\ttime_order and a_order: {time_order and a_order}\n"
-            f"\ttime_order and b_order: {time_order and b_order}\n"
-            f"\ta_order and b_order: {a_order and b_order}\n"
-            f"\ttime_order and bl_order: {time_order and bl_order}\n\n"
-            "Please include the following information in your issue:\n"
-            f"Nbls: {Nbls}\n"
-            f"Ntimes: {Ntimes}\n"
-            f"TIMES: {times}\n"
-            f"ANT1: {ant1}\n"
-            f"ANT2: {ant2}\n"
-            f"BASELINES: {bls}\n"
-        )
-
     if time_bl:
         return ("time", "baseline")
     if bl_time:
-- 
2.43.0


From 4244faa8e61886fb725a384559f61e51311e6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 035/160] fix: check the polarization of reversed baselines in
 FastUVH5Meta.has_key

---
 src/pyuvdata/uvdata/uvh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 15b9131..6bbf23a 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -386,7 +386,9 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
 
     def has_key(self, key: tuple[int, int] | tuple[int, int, str]) -> bool:
         """Check if the file has a given antpair or antpair-pol key."""
-        if len(key) == 2 and key in self.antpairs or (key[1], key[0]) in self.antpairs:
+        if len(key) == 2 and (
+            key in self.antpairs or (key[1], key[0]) in self.antpairs
+        ):
             return True
         elif len(key) == 3 and (
             (key[:2] in self.antpairs and key[2] in self.pols)
-- 
2.43.0


From 59d02d8e72d98a07b7f197d86c4e6d13918845c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 036/160] fix: update the rectangularity when reading part of a
 uvh5 file

---
 src/pyuvdata/uvdata/uvh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 6bbf23a..d3d1925 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -819,6 +819,9 @@ class UVH5(UVData):
                 history_update_string=history_update_string,
                 keep_all_metadata=keep_all_metadata,
             )
+            if blt_inds is not None:
+                # the rectangularity in the file was for all the baseline-times
+                self.set_rectangularity(force=True)
 
             # determine which axes can be sliced, rather than fancy indexed
             # max_nslice_frac of 0.1 yields slice speedup over fancy index for HERA data
-- 
2.43.0


From a49b1f03803f83e941133773cb105c5bc2712ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:18 +0000
Subject: [PATCH 037/160] fix: honour keep_all_metadata=False when a uvh5 read
 keeps all the baseline-times

---
 src/pyuvdata/uvdata/uvh5.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index d3d1925..abdf4ec 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -809,6 +809,15 @@ class UVH5(UVData):
                 self.data_array = hdf5_utils._index_dset(dgrp["visdata"], inds)
             self.flag_array = hdf5_utils._index_dset(dgrp["flags"], inds)
             self.nsample_array = hdf5_utils._index_dset(dgrp["nsamples"], inds)
+            if blt_inds is not None and not keep_all_metadata:
+                # all the data are kept, but there may be antennas without data
+                self._select_by_index(
+                    blt_inds=blt_inds,
+                    freq_inds=None,
+                    pol_inds=None,
+                    history_update_string="",
+                    keep_all_metadata=keep_all_metadata,
+                )
         else:
             # do select operations on everything except data_array, flag_array
             # and nsample_array
-- 
2.43.0


From 032234de52a4820264803433479f2244c5c55ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:32 +0000
Subject: [PATCH 038/160] fix: Stokes polarizations of reversed baselines in
 FastUVH5Meta.has_key

---
 src/pyuvdata/uvdata/uvh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index abdf4ec..c657322 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -392,7 +392,10 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
             return True
         elif len(key) == 3 and (
             (key[:2] in self.antpairs and key[2] in self.pols)
-            or ((key[1], key[0]) in self.antpairs and key[2][::-1] in self.pols)
+            or (
+                (key[1], key[0]) in self.antpairs
+                and utils.pol.CONJ_POL_DICT.get(key[2]) in self.pols
+            )
         ):
             return True
         else:
-- 
2.43.0


From f845d93c6575f32b5a7b9d3a087ef3003dde1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 039/160] fix: reorder scan_number_array along with the other
 arrays in UVCal.reorder_times

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..92ed424 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2368,6 +2368,8 @@ class UVCal(UVBase):
             self.phase_center_id_array = self.phase_center_id_array[index_array]
         if self.ref_antenna_array is not None:
             self.ref_antenna_array = self.ref_antenna_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
         self.integration_time = self.integration_time[index_array]
         for param_name in self._data_params:
             param = getattr(self, param_name)
-- 
2.43.0


From 36d504ca73b059ae77ba3924496a2a414b6e792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 040/160] fix: refuse UVCal.select of phase centers that do not
 match any times

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 92ed424..7977b59 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4078,6 +4078,8 @@ class UVCal(UVBase):
             time_inds = utils.tools._sorted_unique_intersection(
                 np.where(pc_check)[0], time_inds
             )
+            if len(time_inds) == 0:
+                raise ValueError("No data matching this phase center selection.")
 
             update_substring = (
                 "phase center IDs" if (catalog_names is None) else "catalog names"
-- 
2.43.0


From a75d12c0e34507163456620aa9710aa030b06bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 041/160] fix: UVCal.select of channels that are all in
 different spectral windows

---
 src/pyuvdata/uvcal/uvcal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 7977b59..49e6310 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4176,7 +4176,10 @@ class UVCal(UVBase):
                     freq_ind_separation = freq_ind_separation[
                         np.diff(self.flex_spw_id_array[freq_inds]) == 0
                     ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # all the channels are in different spectral windows
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From f15df522f73021d088ac113217f527926ee4df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 042/160] fix: refuse unknown spectral windows in UVCal.select
 for all kinds of objects

---
 src/pyuvdata/uvcal/uvcal.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 49e6310..2b05cb1 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4109,7 +4109,18 @@ class UVCal(UVBase):
                 )
                 spw_inds = None
             else:
+                # Check and see that all requested spws are available
+                spws = np.asarray(utils.tools._get_iterable(spws)).flatten()
+                spw_check = np.isin(spws, self.spw_array)
+                if not np.all(spw_check):
+                    raise ValueError(
+                        f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
+                        "present in the spw_array"
+                    )
+
                 if not self.wide_band:
+                    if freq_chans is not None:
+                        freq_chans = utils.tools._get_iterable(freq_chans)
                     # Translate the spws into frequencies
                     freq_chans = utils.tools._sorted_unique_union(
                         np.where(np.isin(self.flex_spw_id_array, spws))[0], freq_chans
@@ -4122,14 +4133,6 @@ class UVCal(UVBase):
                         history_update_string += "spectral windows"
                     n_selects += 1
 
-                    # Check and see that all requested spws are available
-                    spw_check = np.isin(spws, self.spw_array)
-                    if not np.all(spw_check):
-                        raise ValueError(
-                            f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
-                            "present in the spw_array"
-                        )
-
                     spw_inds = np.where(np.isin(self.spw_array, spws))[0]
         else:
             spw_inds = None
-- 
2.43.0


From b0b5cf99c419c200229a49ae9cc584bc93b606f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 043/160] fix: selecting LST ranges that wrap around zero on
 objects with time ranges

---
 src/pyuvdata/utils/times.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..2530d74 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -501,9 +501,13 @@ def _select_times_helper(
                     if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
                         time_inds = np.append(time_inds, lind)
                 else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
-                    ):
+                    # At least one of these wraps around zero, so they overlap if
+                    # one of them starts inside of the other one.
+                    if (lst_range[0] - lrange[0]) % (2 * np.pi) <= (
+                        lrange[1] - lrange[0]
+                    ) % (2 * np.pi) or (lrange[0] - lst_range[0]) % (2 * np.pi) <= (
+                        lst_range[1] - lst_range[0]
+                    ) % (2 * np.pi):
                         time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
         else:
-- 
2.43.0


From 3ca584f2f274481b51a9b3dc3edf1c90e0ad8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:37 +0000
Subject: [PATCH 044/160] fix: keep all the LST ranges that contain a selected
 LST

---
 src/pyuvdata/utils/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index 2530d74..489bb02 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -461,12 +461,12 @@ def _select_times_helper(
                         (obj_lst_range[:, 0] <= lst), (obj_lst_range[:, 1] >= lst)
                     )
                 )[0]
-                if lst_ind.size == 0 and np.any(lst_range_wrap):
+                if np.any(lst_range_wrap):
                     for lr_ind in np.nonzero(lst_range_wrap)[0]:
                         if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
                             lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
                         ):
-                            lst_ind = np.array([lr_ind])
+                            lst_ind = np.append(lst_ind, lr_ind)
                 if lst_ind.size > 0:
                     time_inds = np.append(time_inds, lst_ind)
                 else:
-- 
2.43.0


From d19a180a3a52d8e3ab6fddcee74ce52d08476aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:07 +0000
Subject: [PATCH 045/160] fix: a single freq_chans number together with
 frequencies or spws in UVCal.select

---
 src/pyuvdata/uvcal/uvcal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 2b05cb1..016d7e9 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4102,6 +4102,9 @@ class UVCal(UVBase):
                         "is not supported by the calfits format."
                     )
 
+        if freq_chans is not None:
+            freq_chans = utils.tools._get_iterable(freq_chans)
+
         if spws is not None:
             if self.Nspws == 1:
                 warnings.warn(
@@ -4119,8 +4122,6 @@ class UVCal(UVBase):
                     )
 
                 if not self.wide_band:
-                    if freq_chans is not None:
-                        freq_chans = utils.tools._get_iterable(freq_chans)
                     # Translate the spws into frequencies
                     freq_chans = utils.tools._sorted_unique_union(
                         np.where(np.isin(self.flex_spw_id_array, spws))[0], freq_chans
-- 
2.43.0


From 7c72a7d2c56efe0a218f5e396e0bb1e3dfd062d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 046/160] fix: total_quality_array in the flex-Jones
 conversions of UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 016d7e9..39da5c5 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -930,10 +930,15 @@ class UVCal(UVBase):
             for name, param in zip(self._data_params, self.data_like_parameters):
                 if param is None:
                     continue
+                # total_quality_array does not have the antenna axis, so make the
+                # frequency-like axis the first one for everything.
+                total_quality = name == "total_quality_array"
+                if not total_quality:
+                    param = np.moveaxis(param, 1, 0)
                 # Update the parameter shape with
                 new_shape = list(param.shape)
-                new_shape[1] = self.Nspws if self.wide_band else self.Nfreqs
-                new_shape[3] = self.Njones
+                new_shape[0] = self.Nspws if self.wide_band else self.Nfreqs
+                new_shape[-1] = self.Njones
                 new_param = np.full(new_shape, name == "flag_array", dtype=param.dtype)
                 for idx, old_spw in enumerate(spw_map):
                     new_fidx = freq_index == spw_map[old_spw]
@@ -941,7 +946,9 @@ class UVCal(UVBase):
                     # above (and marks the original indexing positions of the object)
                     old_fidx = index_check == old_spw
                     jones_idx = jones_array.index(self.flex_jones_array[idx])
-                    new_param[:, new_fidx, :, jones_idx] = param[:, old_fidx, :, 0]
+                    new_param[new_fidx, ..., jones_idx] = param[old_fidx, ..., 0]
+                if not total_quality:
+                    new_param = np.moveaxis(new_param, 0, 1)
                 setattr(self, name, new_param)
 
         # Finally, drop flex_jones now that we no longer need it's info
@@ -1020,7 +1027,10 @@ class UVCal(UVBase):
                 spw_screen = spw_id_arr == spw
 
                 # Grab from the right Jones-position and plug values in
-                new_param[:, spw_screen, :, 0] = param[:, spw_screen, :, jones_idx]
+                if name == "total_quality_array":
+                    new_param[spw_screen, :, 0] = param[spw_screen, :, jones_idx]
+                else:
+                    new_param[:, spw_screen, :, 0] = param[:, spw_screen, :, jones_idx]
 
             # Update the attribute with the new values
             setattr(self, name, new_param)
@@ -1088,9 +1098,10 @@ class UVCal(UVBase):
                 # Make into a list so that its mutable
                 old_shape = param.shape
                 # ("Nants_data", "Nfreqs", "Ntimes", "Njones"),
-                # Extend the second axis by njones, shrink the last axis to 1
-                new_shape = [old_shape[0], old_shape[1] * njones, old_shape[2], 1]
-                param = np.transpose(param, (0, 3, 1, 2)).reshape(new_shape)
+                # where total_quality_array does not have the first axis.
+                # Extend the frequency axis by njones, shrink the last axis to 1
+                new_shape = [*old_shape[:-3], old_shape[-3] * njones, old_shape[-2], 1]
+                param = np.moveaxis(param, -1, -3).reshape(new_shape)
                 setattr(self, name, param)
 
     def set_telescope_params(
-- 
2.43.0


From c5b605cb38ce556d669d8a5c2a31b48ea24aab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 047/160] fix: remove_flex_jones with spectral windows of
 different lengths

---
 src/pyuvdata/uvcal/uvcal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 39da5c5..c5b175c 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -850,7 +850,9 @@ class UVCal(UVBase):
                 # back to itself.
                 spw_match = spw1
                 for spw2, (freqs2, chwidth2) in spw_freqs.items():
-                    if np.allclose(freqs1, freqs2, rtol=ftol[0], atol=ftol[1]):
+                    if freqs1.shape == freqs2.shape and np.allclose(
+                        freqs1, freqs2, rtol=ftol[0], atol=ftol[1]
+                    ):
                         if np.allclose(chwidth1, chwidth2, rtol=ctol[0], atol=ctol[1]):
                             spw_match = spw2
                             break
-- 
2.43.0


From 114c3fa078d1cee459c961fc79ff547d9540a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 048/160] fix: put the data of the second object at its own
 labels in UVCal.__add__

---
 src/pyuvdata/uvcal/uvcal.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index c5b175c..d6d880a 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3246,27 +3246,25 @@ class UVCal(UVBase):
 
         # Now populate the data
         if not self.metadata_only:
-            jones_t2o = np.nonzero(np.isin(this.jones_array, other.jones_array))[0]
+            # Find where each element of other went, in the order they are in on other.
+            def _find_inds(this_keys, other_keys):
+                this_loc = {key: ind for ind, key in enumerate(this_keys)}
+                return np.array([this_loc[key] for key in other_keys], dtype=int)
+
+            jones_t2o = _find_inds(this.jones_array, other.jones_array)
             if this.time_range is not None:
-                times_t2o = np.nonzero(
-                    (np.isin(this.time_range[:, 0], other.time_range[:, 0]))
-                    & (np.isin(this.time_range[:, 1], other.time_range[:, 1]))
-                )[0]
+                times_t2o = _find_inds(this.time_range[:, 0], other.time_range[:, 0])
             else:
-                times_t2o = np.nonzero(np.isin(this.time_array, other.time_array))[0]
+                times_t2o = _find_inds(this.time_array, other.time_array)
 
             if self.wide_band:
-                freqs_t2o = np.nonzero(np.isin(this.spw_array, other.spw_array))[0]
+                freqs_t2o = _find_inds(this.spw_array, other.spw_array)
             else:
-                freqs_t2o = np.zeros(this.freq_array.shape, dtype=bool)
-                for spw_id in set(this.spw_array).intersection(other.spw_array):
-                    mask = this.flex_spw_id_array == spw_id
-                    freqs_t2o[mask] |= np.isin(
-                        this.freq_array[mask],
-                        other.freq_array[other.flex_spw_id_array == spw_id],
-                    )
-                freqs_t2o = np.nonzero(freqs_t2o)[0]
-            ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
+                freqs_t2o = _find_inds(
+                    zip(this.flex_spw_id_array, this.freq_array),
+                    zip(other.flex_spw_id_array, other.freq_array),
+                )
+            ants_t2o = _find_inds(this.ant_array, other.ant_array)
             if this.cal_type == "delay":
                 this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
                     other.delay_array
-- 
2.43.0


From d32ff12d7599563dc4762d67a8e9a79261820143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 049/160] fix: combine scan_number_array in UVCal.__add__ and
 fast_concat

---
 src/pyuvdata/uvcal/uvcal.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index d6d880a..76102da 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3126,6 +3126,14 @@ class UVCal(UVBase):
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array, other.ref_antenna_array[tnew_inds]]
                 )
+            if this.scan_number_array is not None:
+                if other.scan_number_array is None:
+                    # the scans are not known for all the times.
+                    this.scan_number_array = None
+                else:
+                    this.scan_number_array = np.concatenate(
+                        [this.scan_number_array, other.scan_number_array[tnew_inds]]
+                    )
             if this.time_range is not None:
                 t_order = np.argsort(this.time_range[:, 0])
             else:
@@ -3341,6 +3349,8 @@ class UVCal(UVBase):
                 this.phase_center_id_array = this.phase_center_id_array[t_order]
             if self.ref_antenna_array is not None:
                 this.ref_antenna_array = this.ref_antenna_array[t_order]
+            if this.scan_number_array is not None:
+                this.scan_number_array = this.scan_number_array[t_order]
         if len(jnew_inds) > 0:
             this.jones_array = this.jones_array[j_order]
 
@@ -3811,6 +3821,16 @@ class UVCal(UVBase):
                     [this.ref_antenna_array] + [obj.ref_antenna_array for obj in other],
                     axis=0,
                 )
+            if this.scan_number_array is not None:
+                if any(obj.scan_number_array is None for obj in other):
+                    # the scans are not known for all the times.
+                    this.scan_number_array = None
+                else:
+                    this.scan_number_array = np.concatenate(
+                        [this.scan_number_array]
+                        + [obj.scan_number_array for obj in other],
+                        axis=0,
+                    )
             axis_num = 2
         elif axis == "jones":
             this.Njones = sum([this.Njones] + [obj.Njones for obj in other])
-- 
2.43.0


From f13823c46f3ceb0015fbb5d44f6a7b13edc33043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 050/160] fix: keep flex_jones_array with its spectral windows
 when combining UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 76102da..2b5f652 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3027,12 +3027,12 @@ class UVCal(UVBase):
 
                 # We want to preserve per-spw information based on first appearance
                 # in the concatenated array.
+                concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                 unique_index = np.sort(
                     np.unique(this.flex_spw_id_array, return_index=True)[1]
                 )
                 this.spw_array = np.sort(this.flex_spw_id_array[unique_index])
                 if this.flex_jones_array is not None:
-                    concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                     spw_index = np.asarray(
                         [
                             np.nonzero(concat_spw_array == spw)[0][0]
@@ -3331,6 +3331,8 @@ class UVCal(UVBase):
             if this.wide_band:
                 this.spw_array = this.spw_array[f_order]
                 this.freq_range = this.freq_range[f_order]
+                if this.flex_jones_array is not None:
+                    this.flex_jones_array = this.flex_jones_array[f_order]
             else:
                 this.freq_array = this.freq_array[f_order]
                 this.channel_width = this.channel_width[f_order]
@@ -3735,15 +3737,15 @@ class UVCal(UVBase):
             )
             # We want to preserve per-spw information based on first appearance
             # in the concatenated array.
+            concat_spw_array = np.concatenate(
+                [this.spw_array] + [obj.spw_array for obj in other]
+            )
             unique_index = np.sort(
                 np.unique(this.flex_spw_id_array, return_index=True)[1]
             )
             this.spw_array = this.flex_spw_id_array[unique_index]
             this.Nspws = this.spw_array.size
             if this.flex_jones_array is not None:
-                concat_spw_array = np.concatenate(
-                    [this.spw_array] + [obj.spw_array for obj in other]
-                )
                 spw_index = np.asarray(
                     [
                         np.nonzero(concat_spw_array == spw)[0][0]
-- 
2.43.0


From d156adc36e0425c0ac817700e5eae444073605d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 051/160] fix: total_quality_array when only some UVCal objects
 have it or there is no quality_array

---
 src/pyuvdata/uvcal/uvcal.py | 42 ++++++++-----------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 2b5f652..3334b9a 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2941,10 +2941,14 @@ class UVCal(UVBase):
 
         # Initialize tqa variables
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
-        else:
-            Nf_tqa = this.Nfreqs
+        if (
+            not self.metadata_only
+            and this.total_quality_array is None
+            and other.total_quality_array is not None
+        ):
+            this.total_quality_array = np.zeros(
+                this._total_quality_array.expected_shape(this), dtype=float
+            )
 
         if (
             not self.metadata_only
@@ -3091,14 +3095,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=0
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros((len(fnew_inds), this.Ntimes, this.Njones))
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=0
-                    )
 
         t_order = None
         if len(tnew_inds) > 0:
@@ -3178,17 +3174,7 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=1
-                    )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
@@ -3241,16 +3227,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=2
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (data_array_shape[1], data_array_shape[2], len(jnew_inds))
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=2
-                    )
 
         # Now populate the data
         if not self.metadata_only:
-- 
2.43.0


From 31cb435109a5ea4f7c1d5a836929364238a82def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 052/160] fix: keep the phase center ids of all objects
 consistent in UVCal.fast_concat

---
 src/pyuvdata/uvcal/uvcal.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 3334b9a..67135ac 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3673,16 +3673,17 @@ class UVCal(UVBase):
                     warnings.warn(msg)
 
         # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
+        # First give the phase centers of each object the IDs they have on this one,
+        # then add the ones that are new to this one. That way the IDs assigned for
+        # the earlier objects are not changed by the later ones.
         if this.phase_center_catalog is not None:
-            uv_list = [this] + other
-            while len(uv_list) > 1:
-                for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                    uv1._consolidate_phase_center_catalogs(
-                        other=uv2, ignore_name=ignore_name
-                    )
-                uv_list = uv_list[0::2]
+            for obj in other:
+                obj._consolidate_phase_center_catalogs(
+                    reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+                )
+                this._consolidate_phase_center_catalogs(
+                    other=obj, ignore_name=ignore_name
+                )
 
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
-- 
2.43.0


From e58dd9c94070da03832e5f3b6ff9589180ebba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:37 +0000
Subject: [PATCH 053/160] fix: refuse UVCal.fast_concat of objects that differ
 along the other axes, without changing the history

---
 src/pyuvdata/uvcal/uvcal.py | 51 ++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 67135ac..7e9141b 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3598,12 +3598,18 @@ class UVCal(UVBase):
                 "_lst_array",
                 "_time_range",
                 "_lst_range",
+                "_ref_antenna_array",
             ]
         elif axis == "jones":
             history_update_string += "jones"
             compatibility_params += [
                 "_freq_array",
                 "_channel_width",
+                "_freq_range",
+                "_spw_array",
+                "_flex_spw_id_array",
+                "_flex_jones_array",
+                "_ref_antenna_array",
                 "_ant_array",
                 "_time_array",
                 "_integration_time",
@@ -3616,6 +3622,11 @@ class UVCal(UVBase):
             compatibility_params += [
                 "_freq_array",
                 "_channel_width",
+                "_freq_range",
+                "_spw_array",
+                "_flex_spw_id_array",
+                "_flex_jones_array",
+                "_ref_antenna_array",
                 "_jones_array",
                 "_time_array",
                 "_integration_time",
@@ -3628,12 +3639,34 @@ class UVCal(UVBase):
             compatibility_params += [
                 "_freq_array",
                 "_channel_width",
+                "_freq_range",
+                "_spw_array",
+                "_flex_spw_id_array",
+                "_flex_jones_array",
                 "_jones_array",
                 "_ant_array",
             ]
             _time_param_check(this, other)
 
         history_update_string += " axis using pyuvdata."
+        # Actually check compatibility parameters
+        for obj in other:
+            for a in compatibility_params:
+                params_match = getattr(this, a) == getattr(obj, a)
+                if not params_match:
+                    msg = (
+                        "UVParameter "
+                        + a[1:]
+                        + " does not match. Cannot combine objects."
+                    )
+                    raise ValueError(msg)
+
+            for a in warning_params:
+                params_match = getattr(this, a) == getattr(obj, a)
+                if not params_match:
+                    msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
+                    warnings.warn(msg)
+
         histories_match = []
         for obj in other:
             histories_match.append(
@@ -3654,24 +3687,6 @@ class UVCal(UVBase):
                             " Unique part of next object history follows. "
                             + extra_history
                         )
-        # Actually check compatibility parameters
-        for obj in other:
-            for a in compatibility_params:
-                params_match = getattr(this, a) == getattr(obj, a)
-                if not params_match:
-                    msg = (
-                        "UVParameter "
-                        + a[1:]
-                        + " does not match. Cannot combine objects."
-                    )
-                    raise ValueError(msg)
-
-            for a in warning_params:
-                params_match = getattr(this, a) == getattr(obj, a)
-                if not params_match:
-                    msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
-                    warnings.warn(msg)
-
         # update the phase_center_catalog to make them consistent across objects
         # First give the phase centers of each object the IDs they have on this one,
         # then add the ones that are new to this one. That way the IDs assigned for
-- 
2.43.0


From c787c01ffa795710bd7eedd99f60d0e2cd731b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:18 +0000
Subject: [PATCH 054/160] fix: let UVCal.fast_concat take the phase center ids
 of the second object as before

---
 src/pyuvdata/uvcal/uvcal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 7e9141b..c200b1d 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3688,14 +3688,17 @@ class UVCal(UVBase):
                             + extra_history
                         )
         # update the phase_center_catalog to make them consistent across objects
-        # First give the phase centers of each object the IDs they have on this one,
+        # This object takes the IDs of the first one it is combined with. After that,
+        # first give the phase centers of each object the IDs they have on this one,
         # then add the ones that are new to this one. That way the IDs assigned for
         # the earlier objects are not changed by the later ones.
         if this.phase_center_catalog is not None:
-            for obj in other:
-                obj._consolidate_phase_center_catalogs(
-                    reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
-                )
+            for obj_num, obj in enumerate(other):
+                if obj_num > 0:
+                    obj._consolidate_phase_center_catalogs(
+                        reference_catalog=this.phase_center_catalog,
+                        ignore_name=ignore_name,
+                    )
                 this._consolidate_phase_center_catalogs(
                     other=obj, ignore_name=ignore_name
                 )
-- 
2.43.0


From 962ced9d704cc0465e943a6b610e3db3d0b7e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:05 +0000
Subject: [PATCH 055/160] fix: refuse UVCal.fast_concat of different phase
 centers or interspersed windows before changing anything

---
 src/pyuvdata/uvcal/uvcal.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index c200b1d..43ea048 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3661,12 +3661,34 @@ class UVCal(UVBase):
                     )
                     raise ValueError(msg)
 
+            if axis != "time" and this.phase_center_id_array is not None:
+                # The IDs match, so check that they mean the same phase centers
+                for cat_id in np.unique(this.phase_center_id_array):
+                    if utils.phase_center_catalog.look_in_catalog(
+                        {0: obj.phase_center_catalog[cat_id]},
+                        phase_dict=this.phase_center_catalog[cat_id],
+                        ignore_name=ignore_name,
+                    ) != (0, 0):
+                        raise ValueError(
+                            "Cannot combine objects due to overlapping times with "
+                            "different phase centers."
+                        )
+
             for a in warning_params:
                 params_match = getattr(this, a) == getattr(obj, a)
                 if not params_match:
                     msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
                     warnings.warn(msg)
 
+        if axis == "freq":
+            # this must be checked before anything is changed
+            flex_spw_ids = np.concatenate(
+                [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
+            )
+            utils.frequency._check_flex_spw_contiguous(
+                spw_array=np.unique(flex_spw_ids), flex_spw_id_array=flex_spw_ids
+            )
+
         histories_match = []
         for obj in other:
             histories_match.append(
-- 
2.43.0


From 432df198d603919f83e28eba546b41b6693b2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:14 +0000
Subject: [PATCH 056/160] fix: partial reads of uvfits files with several
 spectral windows

---
 src/pyuvdata/uvdata/uvfits.py | 98 +++++++++++------------------------
 1 file changed, 29 insertions(+), 69 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..dca29d3 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -248,7 +248,7 @@ class UVFITS(UVData):
             blt_frac = 1
 
         if freq_inds is not None:
-            freq_frac = len(freq_inds) * float(self.Nspws) / float(self.Nfreqs)
+            freq_frac = len(freq_inds) / float(self.Nfreqs)
         else:
             freq_frac = 1
 
@@ -259,18 +259,25 @@ class UVFITS(UVData):
 
         min_frac = np.min([blt_frac, freq_frac, pol_frac])
 
-        if min_frac == 1:
-            # no select, read in all the data
-            if vis_hdu.header["NAXIS"] == 7:
-                raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :, :]
-                assert self.Nspws == raw_data_array.shape[1]
-
-            else:
-                # in many uvfits files the spw axis is left out,
-                # here we put it back in so the dimensionality stays the same
-                raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :]
-                raw_data_array = raw_data_array[:, np.newaxis, :, :]
+        if vis_hdu.header["NAXIS"] == 7:
+            raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :, :]
+            assert self.Nspws == raw_data_array.shape[1]
         else:
+            # in many uvfits files the spw axis is left out,
+            # here we put it back in so the dimensionality stays the same
+            raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :]
+            raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
+
+        assert len(raw_data_array.shape) == 5
+
+        # Reshape the data array to be the right size if we are working w/ multiple
+        # spectral windows
+        raw_data_array = np.reshape(
+            raw_data_array,
+            (self.Nblts, self.Nfreqs, self.Npols, raw_data_array.shape[4]),
+        )
+
+        if min_frac < 1:
             # do select operations on everything except data_array, flag_array
             # and nsample_array
             self._select_by_index(
@@ -281,63 +288,16 @@ class UVFITS(UVData):
                 keep_all_metadata=keep_all_metadata,
             )
 
-            # just read in the right portions of the data and flag arrays
-            if blt_frac == min_frac:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
-                if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
-                if pol_frac < 1:
-                    raw_data_array = raw_data_array[:, :, :, pol_inds, :]
-            elif freq_frac == min_frac:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[:, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
-
-                if blt_frac < 1:
-                    raw_data_array = raw_data_array[blt_inds, :, :, :, :]
-                if pol_frac < 1:
-                    raw_data_array = raw_data_array[:, :, :, pol_inds, :]
-            else:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, :, pol_inds, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, pol_inds, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
-
-                if blt_frac < 1:
-                    raw_data_array = raw_data_array[blt_inds, :, :, :, :]
-                if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
-
-        assert len(raw_data_array.shape) == 5
-
-        # Reshape the data array to be the right size if we are working w/ multiple
-        # spectral windows
-        raw_data_array = np.reshape(
-            raw_data_array,
-            (self.Nblts, self.Nfreqs, self.Npols, raw_data_array.shape[4]),
-        )
+            # just read in the right portions of the data and flag arrays, starting
+            # with the axis where the fewest elements are kept
+            axis_selects = [
+                (blt_frac, 0, blt_inds),
+                (freq_frac, 1, freq_inds),
+                (pol_frac, 2, pol_inds),
+            ]
+            for frac, axis, inds in sorted(axis_selects, key=lambda x: x[0]):
+                if frac < 1:
+                    raw_data_array = np.take(raw_data_array, inds, axis=axis)
 
         # FITS uvw direction convention is opposite ours and Miriad's.
         # So conjugate the visibilities and flip the uvws:
-- 
2.43.0


From 9feb44f074478f3e5c33f66c97f255761f94255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:14 +0000
Subject: [PATCH 057/160] fix: write uvfits files with phase centers that do
 not have an epoch

---
 src/pyuvdata/uvdata/uvfits.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index dca29d3..1de2a2e 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -30,6 +30,14 @@ from . import UVData
 __all__ = ["UVFITS"]
 
 
+def _get_epoch(phase_dict):
+    """Get the epoch of a phase center, which is optional (e.g. for icrs)."""
+    epoch = phase_dict.get("cat_epoch")
+    if epoch is None:
+        epoch = 1950.0 if phase_dict["cat_frame"] in ["fk4", "fk4noeterms"] else 2000.0
+    return float(epoch)
+
+
 class UVFITS(UVData):
     """
     Defines a uvfits-specific subclass of UVData for reading and writing uvfits.
@@ -1184,7 +1192,7 @@ class UVFITS(UVData):
         hdu.header["ALT     "] = alt
         hdu.header["INSTRUME"] = self.telescope.instrument
         if self.Nphase == 1:
-            hdu.header["EPOCH   "] = float(phase_dict["cat_epoch"])
+            hdu.header["EPOCH   "] = _get_epoch(phase_dict)
         # TODO: This is a keyword that should at some point get added for velocity
         # reference stuff, although for right now pyuvdata doesn't do any sort of
         # handling of this, so stub this out for now.
@@ -1449,18 +1457,14 @@ class UVFITS(UVData):
                 latitude=phase_dict["cat_lat"],
                 in_coord_frame=phase_dict["cat_frame"],
                 out_coord_frame=hdu.header["RADESYS"],
-                in_coord_epoch=phase_dict.get("cat_epoch"),
-                out_coord_epoch=phase_dict.get("cat_epoch"),
+                in_coord_epoch=_get_epoch(phase_dict),
+                out_coord_epoch=_get_epoch(phase_dict),
                 time_array=np.mean(self.time_array),
             )
             ra_arr[idx] = new_ra[0]
             dec_arr[idx] = new_dec[0]
 
-            epo_arr[idx] = (
-                phase_dict["cat_epoch"]
-                if "cat_epoch" in (phase_dict.keys())
-                else 2000.0
-            )
+            epo_arr[idx] = _get_epoch(phase_dict)
 
             if any(self.phase_center_id_array == cat_id):
                 # Fill in these values if we calculated them for the phase centers,
-- 
2.43.0


From 49e8d33b3dac5ad70baa1ab4e15d03fcd18da74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:14 +0000
Subject: [PATCH 058/160] fix: write the spectral windows of uvfits files in
 the order of the frequency axis

---
 src/pyuvdata/uvdata/uvfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 1de2a2e..cc55898 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -875,7 +875,9 @@ class UVFITS(UVData):
         nchan_list = []
         start_freq_array = []
         delta_freq_array = []
-        for idx in self.spw_array:
+        # use the order of the spectral windows along the frequency axis
+        spw_order = np.unique(self.flex_spw_id_array, return_index=True)[1]
+        for idx in self.flex_spw_id_array[np.sort(spw_order)]:
             chan_mask = self.flex_spw_id_array == idx
             nchan_list += [np.sum(chan_mask)]
             start_freq_array += [self.freq_array[chan_mask][0]]
-- 
2.43.0


From 799e77ce3e9b03f1ff1a5d1fa9a0c0da64a528a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:45 +0000
Subject: [PATCH 059/160] fix: honour keep_all_metadata=False when a uvfits
 read keeps all the baseline-times

---
 src/pyuvdata/uvdata/uvfits.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index cc55898..8582026 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -306,6 +306,15 @@ class UVFITS(UVData):
             for frac, axis, inds in sorted(axis_selects, key=lambda x: x[0]):
                 if frac < 1:
                     raw_data_array = np.take(raw_data_array, inds, axis=axis)
+        elif blt_inds is not None and not keep_all_metadata:
+            # all the data are kept, but there may be antennas without data
+            self._select_by_index(
+                blt_inds=blt_inds,
+                freq_inds=None,
+                pol_inds=None,
+                history_update_string="",
+                keep_all_metadata=keep_all_metadata,
+            )
 
         # FITS uvw direction convention is opposite ours and Miriad's.
         # So conjugate the visibilities and flip the uvws:
-- 
2.43.0


From f50611316d258a1a3238e4963f448c459640fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:51 +0000
Subject: [PATCH 060/160] fix: keep channel widths positive when reading uvfits
 files with descending frequencies

---
 src/pyuvdata/uvdata/uvfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 8582026..b955364 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -434,7 +434,7 @@ class UVFITS(UVData):
                 # FQ table, in which case pull the info from the main table
                 self.Nfreqs = vis_hdr.pop("NAXIS4")
                 self.freq_array = fits_utils._gethduaxis(vis_hdu, 4)
-                self.channel_width = np.full(self.Nfreqs, vis_hdr.pop("CDELT4"))
+                self.channel_width = np.full(self.Nfreqs, abs(vis_hdr.pop("CDELT4")))
                 self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
 
             self.polarization_array = np.int32(fits_utils._gethduaxis(vis_hdu, 3))
-- 
2.43.0


From 39050ce5488332faf2ba5f854ad3e1fd41bc7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:31 +0000
Subject: [PATCH 061/160] fix: write uvfits files of objects with unused
 non-sidereal phase centers

---
 src/pyuvdata/uvdata/uvfits.py | 54 +++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index b955364..35c6a87 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -1034,7 +1034,15 @@ class UVFITS(UVData):
             "INTTIM  ": int_time_array,
         }
 
-        id_offset = int(0 in self.phase_center_catalog)
+        # all the data are phased to sidereal sources, other types of phase centers
+        # are not used (and cannot be written)
+        phase_center_catalog = {
+            cat_id: phase_dict
+            for cat_id, phase_dict in self.phase_center_catalog.items()
+            if phase_dict["cat_type"] == "sidereal"
+        }
+        n_phase = len(phase_center_catalog)
+        id_offset = int(0 in phase_center_catalog)
         group_parameter_dict["SOURCE  "] = self.phase_center_id_array + id_offset
 
         pscal_dict = {
@@ -1175,12 +1183,12 @@ class UVFITS(UVData):
         hdu.header["CRPIX5  "] = 1.0
         hdu.header["CDELT5  "] = 1.0
 
-        if self.Nphase > 1:
+        if n_phase > 1:
             ra_use = 0.0
             dec_use = 0.0
             name_use = "MULTI"
         else:
-            phase_dict = list(self.phase_center_catalog.values())[0]
+            phase_dict = list(phase_center_catalog.values())[0]
             ra_use = np.rad2deg(phase_dict["cat_lon"])
             dec_use = np.rad2deg(phase_dict["cat_lat"])
             name_use = phase_dict["cat_name"]
@@ -1202,19 +1210,17 @@ class UVFITS(UVData):
         hdu.header["LON     "] = lon
         hdu.header["ALT     "] = alt
         hdu.header["INSTRUME"] = self.telescope.instrument
-        if self.Nphase == 1:
+        if n_phase == 1:
             hdu.header["EPOCH   "] = _get_epoch(phase_dict)
         # TODO: This is a keyword that should at some point get added for velocity
         # reference stuff, although for right now pyuvdata doesn't do any sort of
         # handling of this, so stub this out for now.
         # hdu.header["SPECSYS "] = "TOPOCENT"
 
-        if self.Nphase == 1:
+        if n_phase == 1:
             hdu.header["RADESYS"] = phase_dict["cat_frame"]
         else:
-            frames = [
-                ph_dict["cat_frame"] for ph_dict in self.phase_center_catalog.values()
-            ]
+            frames = [ph_dict["cat_frame"] for ph_dict in phase_center_catalog.values()]
             unique_frames, frame_count = np.unique(np.array(frames), return_counts=True)
             if unique_frames.size == 1:
                 hdu.header["RADESYS"] = unique_frames[0]
@@ -1435,25 +1441,25 @@ class UVFITS(UVData):
         fmt_e = "%iE" % self.Nspws
         fmt_j = "%iJ" % self.Nspws
 
-        int_zeros = np.zeros(self.Nphase, dtype=int)
-        flt_zeros = np.zeros(self.Nphase, dtype=np.float64)
-        zero_arr = np.zeros((self.Nphase, self.Nspws))
-        sou_ids = np.zeros(self.Nphase)
+        int_zeros = np.zeros(n_phase, dtype=int)
+        flt_zeros = np.zeros(n_phase, dtype=np.float64)
+        zero_arr = np.zeros((n_phase, self.Nspws))
+        sou_ids = np.zeros(n_phase)
         name_arr = np.array(
-            [ps_dict["cat_name"] for ps_dict in self.phase_center_catalog.values()]
+            [ps_dict["cat_name"] for ps_dict in phase_center_catalog.values()]
         )
-        cal_code = ["    "] * self.Nphase
+        cal_code = ["    "] * n_phase
         # These are things we need to flip through on a source-by-source basis
-        ra_arr = np.zeros(self.Nphase, dtype=np.float64)
-        app_ra = np.zeros(self.Nphase, dtype=np.float64)
-        dec_arr = np.zeros(self.Nphase, dtype=np.float64)
-        app_dec = np.zeros(self.Nphase, dtype=np.float64)
-        epo_arr = np.zeros(self.Nphase, dtype=np.float64)
-        pm_ra = np.zeros(self.Nphase, dtype=np.float64)
-        pm_dec = np.zeros(self.Nphase, dtype=np.float64)
-        rest_freq = np.zeros((self.Nphase, self.Nspws), dtype=np.float64)
-        for idx, cat_id in enumerate(self.phase_center_catalog):
-            phase_dict = self.phase_center_catalog[cat_id]
+        ra_arr = np.zeros(n_phase, dtype=np.float64)
+        app_ra = np.zeros(n_phase, dtype=np.float64)
+        dec_arr = np.zeros(n_phase, dtype=np.float64)
+        app_dec = np.zeros(n_phase, dtype=np.float64)
+        epo_arr = np.zeros(n_phase, dtype=np.float64)
+        pm_ra = np.zeros(n_phase, dtype=np.float64)
+        pm_dec = np.zeros(n_phase, dtype=np.float64)
+        rest_freq = np.zeros((n_phase, self.Nspws), dtype=np.float64)
+        for idx, cat_id in enumerate(phase_center_catalog):
+            phase_dict = phase_center_catalog[cat_id]
             # This is a stub for something smarter in the future
             sou_ids[idx] = cat_id + id_offset
             rest_freq[idx][:] = np.mean(self.freq_array)
-- 
2.43.0


From c496b618c55902fbe1838a6ba22c6c746f1a1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:48 +0000
Subject: [PATCH 062/160] fix: keep the channel width of spectral windows with
 one channel in miriad files

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 176051d..5529796 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1741,6 +1741,8 @@ class Miriad(UVData):
                 freq_array_use[np.append(win_start_pos[1:] - 1, self.Nfreqs - 1)]
                 - freq_array_use[win_start_pos]
             )
+            # windows with only one channel have no direction
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sdf", "d")  # Channel width, Hz -> GHz
             uv["sdf"] = self.channel_width[win_start_pos] * freq_dir / 1e9
@@ -1754,6 +1756,8 @@ class Miriad(UVData):
             # Need the array direction here since channel_width is always supposed
             # to be > 0, but channels can be in decending freq order
             freq_dir = np.sign(np.diff(freq_array_use[([0, -1])]))
+            # a single channel has no direction
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sfreq", "d")  # Freq of first channel of the window, in GHz
             uv["sfreq"] = (freq_array_use[0] / 1e9).astype(np.double)  # Hz -> GHz
-- 
2.43.0


From c08a6780c907568102e274411d0fb61bec698a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:48 +0000
Subject: [PATCH 063/160] fix: keep antenna positions with their antennas in
 miriad files with unsorted antenna numbers

---
 src/pyuvdata/uvdata/miriad.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 5529796..02a30a7 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -533,11 +533,12 @@ class Miriad(UVData):
             if self.telescope.Nants is not None:
                 # in this case there is an antnums variable
                 # (meaning that the file was written with pyuvdata), so we'll use it
-                if nants == self.telescope.Nants:
-                    # no inflation, so just use the positions
+                if nants <= np.max(self.telescope.antenna_numbers):
+                    # the positions are not indexed by antenna number, so just use them
                     self.telescope.antenna_positions = rel_ecef_antpos
                 else:
-                    # there is some inflation, just use the ones that appear in antnums
+                    # just use the ones that appear in antnums (there may be some
+                    # inflation and the antenna numbers may not be sorted)
                     self.telescope.antenna_positions = np.zeros(
                         (self.telescope.Nants, 3), dtype=antpos.dtype
                     )
-- 
2.43.0


From 5fffcc3a591a341a311f65c168e4250d89929106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:36 +0000
Subject: [PATCH 064/160] fix: read miriad files with different integration
 times at the same time

---
 src/pyuvdata/uvdata/miriad.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 02a30a7..b5760cc 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1159,25 +1159,35 @@ class Miriad(UVData):
             # The select on read will make the header nblts not match the
             # number of unique blts
             self.Nblts = len(t_grid)
+
+        # UVData.time_array marks center of integration, while Miriad 'time'
+        # marks beginning
+        # also, int_grid is in units of seconds, so we need to convert to days
+        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+        unique_times, time_inds = np.unique(self.time_array, return_inverse=True)
+        if np.unique(int_grid).size > 1:
+            # the centers of integrations of different lengths can differ by rounding
+            # errors even if they are at the same time
+            is_new = np.diff(unique_times) > 4 * np.spacing(unique_times[-1])
+            group_inds = np.insert(np.cumsum(is_new), 0, 0)
+            unique_times = unique_times[np.unique(group_inds, return_index=True)[1]]
+            self.time_array = unique_times[group_inds[time_inds]]
+        n_times = unique_times.size
+
         if time_range is None:
             try:
                 self.Ntimes = uv["ntimes"]
-                if self.Ntimes != len(times):
+                if self.Ntimes != n_times:
                     warnings.warn(
                         "Ntimes does not match the number of unique times in the data"
                     )
-                    self.Ntimes = len(times)
+                    self.Ntimes = n_times
             except KeyError:
-                self.Ntimes = len(times)
+                self.Ntimes = n_times
         else:
             # The select on read will make the header ntimes not match the
             # number of unique times
-            self.Ntimes = len(times)
-
-        # UVData.time_array marks center of integration, while Miriad 'time'
-        # marks beginning
-        # also, int_grid is in units of seconds, so we need to convert to days
-        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+            self.Ntimes = n_times
 
         self.integration_time = np.asarray(int_grid, dtype=np.float64)
 
-- 
2.43.0


From b97337a9a62d36ba18a686e0888e83a84217f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:36 +0000
Subject: [PATCH 065/160] fix: write and read miriad files with phase centers
 that do not have an epoch

---
 src/pyuvdata/uvdata/miriad.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index b5760cc..4ff0c18 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -25,6 +25,14 @@ from .uvdata import reporting_request
 __all__ = ["Miriad"]
 
 
+def _get_epoch(phase_dict):
+    """Get the epoch to write for a phase center, which may not have one (e.g. icrs)."""
+    epoch = phase_dict.get("cat_epoch")
+    if epoch is None:
+        epoch = 1950.0 if phase_dict["cat_frame"] in ["fk4", "fk4noeterms"] else 2000.0
+    return float(epoch)
+
+
 class Miriad(UVData):
     """
     Defines a Miriad-specific subclass of UVData for reading and writing Miriad files.
@@ -1341,7 +1349,9 @@ class Miriad(UVData):
                                 + reporting_request
                             )
                     else:
-                        if np.any(np.diff(item[blt_index, good_pol])):
+                        arr = item[blt_index, good_pol]
+                        # epochs that are not set are nans
+                        if np.any(np.diff(arr)) and not np.all(np.isnan(arr)):
                             raise ValueError(
                                 "%s values are different by polarization." % name
                                 + reporting_request
@@ -2054,7 +2064,7 @@ class Miriad(UVData):
             elif cat_type == "sidereal":
                 uv["ra"] = self.phase_center_catalog[cat_id]["cat_lon"]
                 uv["dec"] = self.phase_center_catalog[cat_id]["cat_lat"]
-                uv["epoch"] = self.phase_center_catalog[cat_id]["cat_epoch"]
+                uv["epoch"] = _get_epoch(self.phase_center_catalog[cat_id])
                 uv["phsframe"] = self.phase_center_catalog[cat_id]["cat_frame"]
             elif cat_type == "ephem":
                 if self.phase_center_catalog[cat_id]["cat_times"].size == 1:
@@ -2112,7 +2122,7 @@ class Miriad(UVData):
                                 ]["cat_lat"][t_min_loc]
                             uv["ra"] = ra_use[cat_id][t_use]
                             uv["dec"] = dec_use[cat_id][t_use]
-                uv["epoch"] = self.phase_center_catalog[cat_id]["cat_epoch"]
+                uv["epoch"] = _get_epoch(self.phase_center_catalog[cat_id])
                 uv["phsframe"] = self.phase_center_catalog[cat_id]["cat_frame"]
             else:
                 # This is a driftscan, use driftscan_coords to set ra/dec
-- 
2.43.0


From 44cfe9243ac89fad418a868bd57bd3882a993498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:24 +0000
Subject: [PATCH 066/160] fix: refuse unsupported extra keywords before
 creating or clobbering a miriad file

---
 src/pyuvdata/uvdata/miriad.py | 86 ++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 4ff0c18..7df533a 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1711,6 +1711,50 @@ class Miriad(UVData):
                 fix_autos=fix_autos,
             )
 
+        # check the extra keywords before touching any existing file
+        # set up dictionaries to map common python types to miriad types
+        # NB: arrays/lists/dicts could potentially be written as strings or 1D
+        # vectors.  This is not supported at present!
+        # NB: complex numbers *should* be supportable, but are not currently
+        # supported due to unexplained errors in _miriad and/or its underlying libraries
+        types = {
+            str: "a",
+            int: "i",
+            float: "d",
+            bool: "a",  # booleans are stored as strings and changed back on read
+        }
+        extra_keywords_use = []
+        for key, value in self.extra_keywords.items():
+            raise_type_error = False
+            if isinstance(value, np.number):
+                if issubclass(value.dtype.type, np.integer):
+                    value = int(value)
+                elif issubclass(value.dtype.type, np.floating):
+                    value = float(value)
+                elif issubclass(value.dtype.type, np.complexfloating):
+                    raise_type_error = True
+            elif isinstance(value, bool):
+                value = str(value)
+            elif type(value) not in types.keys():
+                raise_type_error = True
+
+            if raise_type_error:
+                raise TypeError(
+                    "Extra keyword {keyword} is of {keytype}. "
+                    "Only strings and real numbers are "
+                    "supported in miriad.".format(keyword=key, keytype=type(value))
+                )
+
+            if len(str(key)) > 8:
+                warnings.warn(
+                    "key {key} in extra_keywords is longer than 8 "
+                    "characters. It will be truncated to 8 as required "
+                    "by the miriad file format.".format(key=key)
+                )
+
+            # name must be string, max 8 letters
+            extra_keywords_use.append((str(key)[:8], types[type(value)], value))
+
         if os.path.exists(filepath):
             if clobber:
                 print("File exists: clobbering")
@@ -1908,47 +1952,7 @@ class Miriad(UVData):
             uv["bltorder"] = blt_order_str
 
         # other extra keywords
-        # set up dictionaries to map common python types to miriad types
-        # NB: arrays/lists/dicts could potentially be written as strings or 1D
-        # vectors.  This is not supported at present!
-        # NB: complex numbers *should* be supportable, but are not currently
-        # supported due to unexplained errors in _miriad and/or its underlying libraries
-        types = {
-            str: "a",
-            int: "i",
-            float: "d",
-            bool: "a",  # booleans are stored as strings and changed back on read
-        }
-        for key, value in self.extra_keywords.items():
-            raise_type_error = False
-            if isinstance(value, np.number):
-                if issubclass(value.dtype.type, np.integer):
-                    value = int(value)
-                elif issubclass(value.dtype.type, np.floating):
-                    value = float(value)
-                elif issubclass(value.dtype.type, np.complexfloating):
-                    raise_type_error = True
-            elif isinstance(value, bool):
-                value = str(value)
-            elif type(value) not in types.keys():
-                raise_type_error = True
-
-            if raise_type_error:
-                raise TypeError(
-                    "Extra keyword {keyword} is of {keytype}. "
-                    "Only strings and real numbers are "
-                    "supported in miriad.".format(keyword=key, keytype=type(value))
-                )
-
-            if len(str(key)) > 8:
-                warnings.warn(
-                    "key {key} in extra_keywords is longer than 8 "
-                    "characters. It will be truncated to 8 as required "
-                    "by the miriad file format.".format(key=key)
-                )
-
-            uvkeyname = str(key)[:8]  # name must be string, max 8 letters
-            typestring = types[type(value)]
+        for uvkeyname, typestring, value in extra_keywords_use:
             uv.add_var(uvkeyname, typestring)
             uv[uvkeyname] = value
 
-- 
2.43.0


From b7e98d4a490f934513271c1d25ebf2bc0488b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:08 +0000
Subject: [PATCH 067/160] fix: apply lst and catalog name selections when
 reading file types without native support for them

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 30f3ede..fededbd 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10983,6 +10983,7 @@ class UVData(UVBase):
                     or polarizations is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     select = True
                     warnings.warn(
@@ -11006,6 +11007,7 @@ class UVData(UVBase):
                     select_polarizations = polarizations
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["uvfits", "uvh5"]:
@@ -11016,8 +11018,11 @@ class UVData(UVBase):
                     or frequencies is not None
                     or freq_chans is not None
                     or times is not None
+                    or lsts is not None
+                    or lst_range is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     if blt_inds is not None:
                         if (
@@ -11058,6 +11063,7 @@ class UVData(UVBase):
                     select_lst_range = lst_range
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["mir"]:
@@ -11081,6 +11087,7 @@ class UVData(UVBase):
                 select_freq_chans = freq_chans
                 select_blt_inds = blt_inds
                 select_phase_center_ids = phase_center_ids
+                select_catalog_names = None
                 select_times = times
                 select_lsts = lsts
 
@@ -11312,6 +11319,7 @@ class UVData(UVBase):
                     polarizations=select_polarizations,
                     blt_inds=select_blt_inds,
                     phase_center_ids=select_phase_center_ids,
+                    catalog_names=select_catalog_names,
                     keep_all_metadata=keep_all_metadata,
                     run_check=run_check,
                     check_extra=check_extra,
-- 
2.43.0


From bd81e93738ddcdde72120b459958fc3482ac0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:08 +0000
Subject: [PATCH 068/160] fix: pass the catalog name selection to the first of
 several files read

---
 src/pyuvdata/uvdata/uvdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index fededbd..ac054e0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10699,6 +10699,7 @@ class UVData(UVBase):
                         antenna_names=antenna_names,
                         ant_str=ant_str,
                         bls=bls,
+                        catalog_names=catalog_names,
                         frequencies=frequencies,
                         freq_chans=freq_chans,
                         times=times,
-- 
2.43.0


From ed6baa872a5a96bd953b42455f0a21cd4ace9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:08 +0000
Subject: [PATCH 069/160] fix: use the metadata files of each FHD data set when
 reading several

---
 src/pyuvdata/uvdata/uvdata.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ac054e0..fe23785 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10676,13 +10676,14 @@ class UVData(UVBase):
                 else:
                     settings_file = [None] * n_files
 
-                params_file_use = params_file[file_num]
-                obs_file_use = obs_file[file_num]
-                flags_file_use = flags_file[file_num]
-                layout_file_use = layout_file[file_num]
-                settings_file_use = settings_file[file_num]
-
             while unread and file_num < len(filename):
+                if file_type == "fhd":
+                    params_file_use = params_file[file_num]
+                    obs_file_use = obs_file[file_num]
+                    flags_file_use = flags_file[file_num]
+                    layout_file_use = layout_file[file_num]
+                    settings_file_use = settings_file[file_num]
+
                 try:
                     self.read(
                         filename[file_num],
@@ -10809,13 +10810,13 @@ class UVData(UVBase):
 
             uv_list = []
             if len(filename) > file_num + 1:
-                for f in filename[file_num + 1 :]:
+                for ind, f in enumerate(filename[file_num + 1 :], start=file_num + 1):
                     if file_type == "fhd":
-                        params_file_use = params_file[file_num]
-                        obs_file_use = obs_file[file_num]
-                        flags_file_use = flags_file[file_num]
-                        layout_file_use = layout_file[file_num]
-                        settings_file_use = settings_file[file_num]
+                        params_file_use = params_file[ind]
+                        obs_file_use = obs_file[ind]
+                        flags_file_use = flags_file[ind]
+                        layout_file_use = layout_file[ind]
+                        settings_file_use = settings_file[ind]
 
                     uv2 = UVData()
                     try:
-- 
2.43.0


From 5f1d1a638fb171a050e34b9ab74c035c4af6d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:52 +0000
Subject: [PATCH 070/160] fix: set the epoch of unprojected records in miriad
 files with other projected records

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 7df533a..8e020e8 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -2049,6 +2049,8 @@ class Miriad(UVData):
                     self.phase_center_catalog[cat_id]["cat_lat"][unique_inds],
                     kind=interp_kind,
                 )
+        # miriad variables that are set for any record have to be set for all of them
+        any_projected = not np.all(self._check_for_cat_type("unprojected"))
         for viscnt in range(self.data_array.shape[0]):
             uvw = (self.uvw_array[viscnt] / c_ns).astype(np.double)
             this_t = miriad_time_array[viscnt]
@@ -2064,6 +2066,8 @@ class Miriad(UVData):
             if cat_type == "unprojected":
                 uv["ra"] = self.phase_center_app_ra[viscnt]
                 uv["dec"] = self.phase_center_app_dec[viscnt]
+                if any_projected:
+                    uv["epoch"] = 2000.0
                 uv["phsframe"] = "unprojected"
             elif cat_type == "sidereal":
                 uv["ra"] = self.phase_center_catalog[cat_id]["cat_lon"]
-- 
2.43.0


From ee4ec793a690940958c5e9e4f49ec557ee37d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 071/160] fix: keep the polarization labels of a selected beam
 in the order of its data

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..e9c1132 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3212,9 +3212,9 @@ class UVBeam(UVBase):
                     )
 
             initial_pols = beam_object.polarization_array.copy()
+            pol_inds = sorted(set(pol_inds))
             final_pols = beam_object.polarization_array[pol_inds]
 
-            pol_inds = sorted(set(pol_inds))
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 40da52a59367eae7fee2894aac917e7394c62d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 072/160] fix: accept tuple and scalar freq_chans in
 UVBeam.select

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index e9c1132..5de8a50 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3054,7 +3054,7 @@ class UVBeam(UVBase):
                 ]
 
         if freq_chans is not None:
-            freq_chans = utils.tools._get_iterable(freq_chans)
+            freq_chans = np.asarray(utils.tools._get_iterable(freq_chans))
             if frequencies is None:
                 frequencies = beam_object.freq_array[freq_chans]
             else:
-- 
2.43.0


From 47bfa1bd0188438df26ccd7aba354922b7205c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 073/160] fix: pass the keywords on for each of several
 beamfits files

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 5de8a50..99b0d31 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3322,7 +3322,7 @@ class UVBeam(UVBase):
             if len(filename) > 1:
                 for f in filename[1:]:
                     beam2 = UVBeam()
-                    beam2.read_beamfits(f, *kwargs)
+                    beam2.read_beamfits(f, **kwargs)
                     self += beam2
                 del beam2
         else:
-- 
2.43.0


From afb0ab72929f3aac2c2dcf46e1a4dd193ed6250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 074/160] fix: match the labels of both beams when combining
 beams ordered differently

---
 src/pyuvdata/uvbeam/uvbeam.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 99b0d31..6d1ac1c 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2757,11 +2757,14 @@ class UVBeam(UVBase):
             )[:, order, ...]
 
         # Now populate the data
+        def _label_inds(this_labels, other_labels):
+            # the index in this of each label on other, in the order they are on other
+            order = np.argsort(this_labels)
+            return order[np.searchsorted(this_labels[order], other_labels)]
+
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o = _label_inds(this.polarization_array, other.polarization_array)
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2777,13 +2780,13 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o = _label_inds(this.feed_array, other.feed_array)
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o = _label_inds(this.freq_array, other.freq_array)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
+            pix_t2o = _label_inds(this.pixel_array, other.pixel_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
@@ -2794,8 +2797,8 @@ class UVBeam(UVBase):
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
+            ax1_t2o = _label_inds(this.axis1_array, other.axis1_array)
+            ax2_t2o = _label_inds(this.axis2_array, other.axis2_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-- 
2.43.0


From c1c2659ded3c4ee8519edf35ab27e43c043abab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 075/160] fix: check beams for overlapping data before dropping
 optional parameters

---
 src/pyuvdata/uvbeam/uvbeam.py | 46 +++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 6d1ac1c..d574e4f 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2429,29 +2429,6 @@ class UVBeam(UVBase):
                 )
                 raise ValueError(msg)
 
-        # check for presence of optional parameters with a frequency axis in
-        # both objects
-        optional_freq_params = [
-            "_receiver_temperature_array",
-            "_loss_array",
-            "_mismatch_array",
-            "_s_parameters",
-        ]
-        for attr in optional_freq_params:
-            this_attr = getattr(this, attr)
-            other_attr = getattr(other, attr)
-            if (
-                this_attr.value is None or other_attr.value is None
-            ) and this_attr != other_attr:
-                warnings.warn(
-                    "Only one of the UVBeam objects being combined "
-                    "has optional parameter {attr}. After the sum the "
-                    "final object will not have {attr}".format(attr=attr)
-                )
-                if this_attr.value is not None:
-                    this_attr.value = None
-                    setattr(this, attr, this_attr)
-
         # Build up history string
         history_update_string = " Combined data along "
         n_axes = 0
@@ -2486,6 +2463,29 @@ class UVBeam(UVBase):
                                 " cannot be combined."
                             )
 
+        # check for presence of optional parameters with a frequency axis in
+        # both objects
+        optional_freq_params = [
+            "_receiver_temperature_array",
+            "_loss_array",
+            "_mismatch_array",
+            "_s_parameters",
+        ]
+        for attr in optional_freq_params:
+            this_attr = getattr(this, attr)
+            other_attr = getattr(other, attr)
+            if (
+                this_attr.value is None or other_attr.value is None
+            ) and this_attr != other_attr:
+                warnings.warn(
+                    "Only one of the UVBeam objects being combined "
+                    "has optional parameter {attr}. After the sum the "
+                    "final object will not have {attr}".format(attr=attr)
+                )
+                if this_attr.value is not None:
+                    this_attr.value = None
+                    setattr(this, attr, this_attr)
+
         # Update filename parameter
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
         if this.filename is not None:
-- 
2.43.0


From 16121f5fc8375a29b7f479b335bf1177347d6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 076/160] fix: select on the basis vectors of power beams too

---
 src/pyuvdata/uvbeam/uvbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index d574e4f..828e600 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2987,7 +2987,7 @@ class UVBeam(UVBase):
                     )
 
             beam_object.data_array = beam_object.data_array[..., axis1_inds]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., axis1_inds
                 ]
@@ -3021,7 +3021,7 @@ class UVBeam(UVBase):
                     )
 
             beam_object.data_array = beam_object.data_array[..., axis2_inds, :]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., axis2_inds, :
                 ]
@@ -3051,7 +3051,7 @@ class UVBeam(UVBase):
             beam_object.pixel_array = beam_object.pixel_array[pix_inds]
 
             beam_object.data_array = beam_object.data_array[..., pix_inds]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., pix_inds
                 ]
-- 
2.43.0


From 27b0d45e075e61aed95276c1d832d9cb9344d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 077/160] fix: combine the basis vectors of power beams too

---
 src/pyuvdata/uvbeam/uvbeam.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 828e600..93d3c49 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2428,6 +2428,10 @@ class UVBeam(UVBase):
                     "UVParameter " + a[1:] + " does not match. Cannot combine objects."
                 )
                 raise ValueError(msg)
+        if (this.basis_vector_array is None) != (other.basis_vector_array is None):
+            raise ValueError(
+                "Only one of the objects has basis vectors. Cannot combine objects."
+            )
 
         # Build up history string
         history_update_string = " Combined data along "
@@ -2576,7 +2580,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_pix_axis
                 )[..., order]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_pix_axis = 2
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_pix_axis])
@@ -2608,7 +2612,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_ax1_axis
                 )[..., order]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_ax1_axis = 3
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_ax1_axis])
@@ -2641,7 +2645,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_ax2_axis
                 )[..., order, :]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_ax2_axis = 2
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_ax2_axis])
@@ -2790,7 +2794,7 @@ class UVBeam(UVBase):
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
-            if this.beam_type == "efield":
+            if this.basis_vector_array is not None:
                 this.basis_vector_array[
                     np.ix_(np.arange(this.Naxes_vec), np.arange(2), pix_t2o)
                 ] = other.basis_vector_array
@@ -2802,7 +2806,7 @@ class UVBeam(UVBase):
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-            if this.beam_type == "efield":
+            if this.basis_vector_array is not None:
                 this.basis_vector_array[
                     np.ix_(np.arange(this.Naxes_vec), np.arange(2), ax2_t2o, ax1_t2o)
                 ] = other.basis_vector_array
-- 
2.43.0


From a527bbef983df22eb9e7513049461215c0112d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 078/160] fix: make the data of a new power beam complex when
 it has cross polarizations

---
 src/pyuvdata/uvbeam/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 7199406..73d66f0 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -345,7 +345,11 @@ def new_uvbeam(
         data_type = complex
         polax = uvb.Nfeeds
     else:
-        data_type = float
+        # power beams are complex if there are cross polarizations
+        if np.any(np.isin(uvb.polarization_array, [-3, -4, -7, -8])):
+            data_type = complex
+        else:
+            data_type = float
         polax = uvb.Npols
 
     if uvb.pixel_coordinate_system == "healpix":
-- 
2.43.0


From aa39e02eadc2999ac773dcc6a5a3f79bb1d4e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 079/160] fix: check the requested pixel coordinate system of a
 new beam

---
 src/pyuvdata/uvbeam/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 73d66f0..098474f 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -206,7 +206,7 @@ def new_uvbeam(
 
         if pixel_coordinate_system is not None:
             allowed_pcs = list(uvb.coordinate_system_dict.keys())
-            if uvb.pixel_coordinate_system not in allowed_pcs:
+            if pixel_coordinate_system not in allowed_pcs:
                 raise ValueError(
                     f"pixel_coordinate_system must be one of {allowed_pcs}"
                 )
-- 
2.43.0


From 4bfb66e21d1aa423b32d431bf3ecfc5f437ec80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 080/160] fix: return the bandpass of every channel from beam
 interpolation without frequencies

---
 src/pyuvdata/uvbeam/uvbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 93d3c49..846e855 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1379,7 +1379,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1659,8 +1659,8 @@ class UVBeam(UVBase):
         else:
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
-            freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            freq_array = self.freq_array
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From 1c701bc570485b02420a654b274aa6534b9eda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 081/160] fix: refuse healpix interpolation when the pixels are
 in descending order

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 846e855..ac214ae 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1639,7 +1639,7 @@ class UVBeam(UVBase):
             raise ValueError(
                 "simple healpix interpolation requires full sky healpix maps."
             )
-        if not np.max(np.abs(np.diff(self.pixel_array))) == 1:
+        if not np.array_equal(self.pixel_array, np.arange(self.Npixels)):
             raise ValueError(
                 "simple healpix interpolation requires healpix pixels to be in order."
             )
-- 
2.43.0


From 6c10087c6a93d72aea2a0f0138993ec415e83f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 082/160] fix: leave a 3-vector beam as it was when its
 conversion to power is refused

---
 src/pyuvdata/uvbeam/uvbeam.py | 46 +++++++++++++++--------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index ac214ae..e658cde 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -897,6 +897,13 @@ class UVBeam(UVBase):
                 "Conversion to power is not yet implemented for phased_array antennas"
             )
 
+        if not keep_basis_vector and self.Naxes_vec != 2:
+            raise ValueError(
+                "Conversion to power with 3-vector efields "
+                "is not currently supported because we have "
+                "no examples to work with."
+            )
+
         if inplace:
             beam_object = self
         else:
@@ -907,7 +914,6 @@ class UVBeam(UVBase):
             calc_cross_pols = False
 
         efield_data = beam_object.data_array
-        efield_naxes_vec = beam_object.Naxes_vec
 
         feed_pol_order = [(0, 0)]
         if beam_object.Nfeeds > 1:
@@ -948,32 +954,20 @@ class UVBeam(UVBase):
                 )
         else:
             for pol_i, pair in enumerate(feed_pol_order):
-                if efield_naxes_vec == 2:
-                    for comp_i in range(2):
-                        power_data[0, pol_i] += (
-                            (efield_data[0, pair[0]] * np.conj(efield_data[0, pair[1]]))
-                            * beam_object.basis_vector_array[0, comp_i] ** 2
-                            + (
-                                efield_data[1, pair[0]]
-                                * np.conj(efield_data[1, pair[1]])
-                            )
-                            * beam_object.basis_vector_array[1, comp_i] ** 2
-                            + (
-                                efield_data[0, pair[0]]
-                                * np.conj(efield_data[1, pair[1]])
-                                + efield_data[1, pair[0]]
-                                * np.conj(efield_data[0, pair[1]])
-                            )
-                            * (
-                                beam_object.basis_vector_array[0, comp_i]
-                                * beam_object.basis_vector_array[1, comp_i]
-                            )
+                for comp_i in range(2):
+                    power_data[0, pol_i] += (
+                        (efield_data[0, pair[0]] * np.conj(efield_data[0, pair[1]]))
+                        * beam_object.basis_vector_array[0, comp_i] ** 2
+                        + (efield_data[1, pair[0]] * np.conj(efield_data[1, pair[1]]))
+                        * beam_object.basis_vector_array[1, comp_i] ** 2
+                        + (
+                            efield_data[0, pair[0]] * np.conj(efield_data[1, pair[1]])
+                            + efield_data[1, pair[0]] * np.conj(efield_data[0, pair[1]])
+                        )
+                        * (
+                            beam_object.basis_vector_array[0, comp_i]
+                            * beam_object.basis_vector_array[1, comp_i]
                         )
-                else:
-                    raise ValueError(
-                        "Conversion to power with 3-vector efields "
-                        "is not currently supported because we have "
-                        "no examples to work with."
                     )
 
         if not calc_cross_pols:
-- 
2.43.0


From 9d5c829d8cd2a2ccf8a17ecfaa6e81337f42ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 083/160] fix: leave a beam as it was when its conversion to
 pseudo-stokes is refused

---
 src/pyuvdata/uvbeam/uvbeam.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index e658cde..ad6587a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1125,6 +1125,17 @@ class UVBeam(UVBase):
         if beam_object.beam_type != "efield":
             raise ValueError("beam_type must be efield.")
 
+        if beam_object.antenna_type == "phased_array":
+            raise NotImplementedError(
+                "Conversion to pseudo-stokes is not yet implemented for phased_array "
+                "antennas"
+            )
+
+        if beam_object.Nfeeds != 2 or beam_object.Naxes_vec != 2:
+            raise ValueError(
+                "Conversion to pseudo-stokes requires two feeds and two vector axes."
+            )
+
         efield_data = beam_object.data_array
         _sh = beam_object.data_array.shape
         Nfreqs = beam_object.Nfreqs
-- 
2.43.0


From b7e6f4843f16a031e3fe64fc3d2f51a47c494f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 084/160] fix: keep only the requested polarizations on an
 interpolated beam object

---
 src/pyuvdata/uvbeam/uvbeam.py | 72 ++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index ad6587a..4b9ae6a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1206,6 +1206,34 @@ class UVBeam(UVBase):
         if not inplace:
             return beam_object
 
+    def _get_pol_inds(self, polarizations):
+        """
+        Get the indices into the polarization_array for some polarizations.
+
+        Parameters
+        ----------
+        polarizations : list of str
+            Polarization strings.
+
+        Returns
+        -------
+        pol_inds : array of int
+            The index into the polarization_array of each of the polarizations.
+
+        """
+        pols = [
+            utils.polstr2num(p, x_orientation=self.x_orientation) for p in polarizations
+        ]
+        pol_inds = []
+        for pol in pols:
+            if pol not in self.polarization_array:
+                raise ValueError(
+                    f"Requested polarization {pol} not found "
+                    "in self.polarization_array"
+                )
+            pol_inds.append(np.where(self.polarization_array == pol)[0][0])
+        return np.asarray(pol_inds)
+
     def _interp_freq(self, freq_array, *, kind="linear", tol=1.0):
         """
         Interpolate function along frequency axis.
@@ -1389,6 +1417,10 @@ class UVBeam(UVBase):
                 interp_coupling_matrix = self.coupling_matrix
 
         if az_array is None or za_array is None:
+            if polarizations is not None and self.beam_type == "power":
+                input_data_array = input_data_array[
+                    :, self._get_pol_inds(polarizations)
+                ]
             interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
             if self.antenna_type == "phased_array":
                 interp_arrays.append(interp_coupling_matrix)
@@ -1480,19 +1512,7 @@ class UVBeam(UVBase):
                 Npol_feeds = self.Npols
                 pol_inds = np.arange(Npol_feeds)
             else:
-                pols = [
-                    utils.polstr2num(p, x_orientation=self.x_orientation)
-                    for p in polarizations
-                ]
-                pol_inds = []
-                for pol in pols:
-                    if pol not in self.polarization_array:
-                        raise ValueError(
-                            "Requested polarization {} not found "
-                            "in self.polarization_array".format(pol)
-                        )
-                    pol_inds.append(np.where(self.polarization_array == pol)[0][0])
-                pol_inds = np.asarray(pol_inds)
+                pol_inds = self._get_pol_inds(polarizations)
                 Npol_feeds = len(pol_inds)
 
         else:
@@ -1670,6 +1690,10 @@ class UVBeam(UVBase):
                 interp_coupling_matrix = self.coupling_matrix
 
         if az_array is None or za_array is None:
+            if polarizations is not None and self.beam_type == "power":
+                input_data_array = input_data_array[
+                    :, self._get_pol_inds(polarizations)
+                ]
             interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
             if self.antenna_type == "phased_array":
                 interp_arrays.append(interp_coupling_matrix)
@@ -1689,19 +1713,7 @@ class UVBeam(UVBase):
                 Npol_feeds = self.Npols
                 pol_inds = np.arange(Npol_feeds)
             else:
-                pols = [
-                    utils.polstr2num(p, x_orientation=self.x_orientation)
-                    for p in polarizations
-                ]
-                pol_inds = []
-                for pol in pols:
-                    if pol not in self.polarization_array:
-                        raise ValueError(
-                            f"Requested polarization {pol} not found "
-                            "in self.polarization_array"
-                        )
-                    pol_inds.append(np.where(self.polarization_array == pol)[0][0])
-                pol_inds = np.asarray(pol_inds)
+                pol_inds = self._get_pol_inds(polarizations)
                 Npol_feeds = len(pol_inds)
         else:
             Npol_feeds = self.Nfeeds
@@ -2103,6 +2115,14 @@ class UVBeam(UVBase):
                 history_update_string += f" and freq_interp_kind = {freq_interp_kind}"
             history_update_string += "."
             new_uvb.history = new_uvb.history + history_update_string
+            if polarizations is not None and self.beam_type == "power":
+                new_uvb.polarization_array = self.polarization_array[
+                    self._get_pol_inds(polarizations)
+                ]
+                new_uvb.Npols = new_uvb.polarization_array.size
+                if not np.any(np.isin(new_uvb.polarization_array, [-3, -4, -7, -8])):
+                    # power beams without cross polarizations are real
+                    interp_data = interp_data.real
             new_uvb.data_array = interp_data
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
-- 
2.43.0


From 78556e9d109f91ce5dca0bff64e3eaf67157b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 085/160] fix: do not share arrays between a beam and the beam
 interpolated from it

---
 src/pyuvdata/uvbeam/uvbeam.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 4b9ae6a..27f5006 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1421,7 +1421,11 @@ class UVBeam(UVBase):
                 input_data_array = input_data_array[
                     :, self._get_pol_inds(polarizations)
                 ]
-            interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
+            interp_arrays = [
+                np.copy(input_data_array),
+                copy.copy(self.basis_vector_array),
+                interp_bandpass,
+            ]
             if self.antenna_type == "phased_array":
                 interp_arrays.append(interp_coupling_matrix)
             return tuple(interp_arrays)
@@ -1694,7 +1698,11 @@ class UVBeam(UVBase):
                 input_data_array = input_data_array[
                     :, self._get_pol_inds(polarizations)
                 ]
-            interp_arrays = [input_data_array, self.basis_vector_array, interp_bandpass]
+            interp_arrays = [
+                np.copy(input_data_array),
+                copy.copy(self.basis_vector_array),
+                interp_bandpass,
+            ]
             if self.antenna_type == "phased_array":
                 interp_arrays.append(interp_coupling_matrix)
             return tuple(interp_arrays)
-- 
2.43.0


From 070fc51771ddf8d1fb30ba934e39fb0681d545a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 086/160] fix: do not reuse the splines of a beam after its
 data changed or for other options

---
 src/pyuvdata/uvbeam/uvbeam.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 27f5006..24d82f5 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -840,6 +840,11 @@ class UVBeam(UVBase):
 
         return True
 
+    def _clear_saved_interp(self):
+        """Remove saved interpolation functions, for use when the data change."""
+        if hasattr(self, "saved_interp_functions"):
+            delattr(self, "saved_interp_functions")
+
     def peak_normalize(self):
         """Convert to peak normalization."""
         if self.data_normalization == "solid_angle":
@@ -852,6 +857,7 @@ class UVBeam(UVBase):
             self.data_array[:, :, i, :] /= max_val
             self.bandpass_array[i] *= max_val
         self.data_normalization = "peak"
+        self._clear_saved_interp()
 
     def efield_to_power(
         self,
@@ -988,6 +994,7 @@ class UVBeam(UVBase):
             power_data = power_data.real
 
         beam_object.data_array = power_data
+        beam_object._clear_saved_interp()
         beam_object.Nfeeds = None
         beam_object.feed_array = None
         if not keep_basis_vector:
@@ -1180,6 +1187,7 @@ class UVBeam(UVBase):
         if self.pixel_coordinate_system != "healpix":
             power_data = power_data.reshape(power_data.shape[:-1] + (Naxes2, Naxes1))
         beam_object.data_array = power_data
+        beam_object._clear_saved_interp()
         beam_object.polarization_array = np.array(
             [
                 utils.polstr2num(ps.upper(), x_orientation=self.x_orientation)
@@ -1557,12 +1565,13 @@ class UVBeam(UVBase):
         if reuse_spline and not hasattr(self, "saved_interp_functions"):
             int_dict = {}
             self.saved_interp_functions = int_dict
+        interp_opts = (freq_interp_kind, repr(sorted(spline_opts.items())))
         for index3 in range(input_nfreqs):
             freq = freq_array[index3]
             for index0 in range(self.Naxes_vec):
                 for pol_return_ind, index2 in enumerate(pol_inds):
                     do_interp = True
-                    key = (freq, index2, index0)
+                    key = (freq, index2, index0) + interp_opts
                     if reuse_spline:
                         if key in self.saved_interp_functions.keys():
                             do_interp = False
@@ -2135,8 +2144,7 @@ class UVBeam(UVBase):
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
 
-            if hasattr(new_uvb, "saved_interp_functions"):
-                delattr(new_uvb, "saved_interp_functions")
+            new_uvb._clear_saved_interp()
 
             new_uvb._set_cs_params()
             if run_check:
@@ -2255,6 +2263,7 @@ class UVBeam(UVBase):
             for p in beam_object:
                 param = getattr(beam_object, p)
                 setattr(self, p, param)
+            self._clear_saved_interp()
 
     def _get_beam(self, pol):
         """
@@ -2868,6 +2877,7 @@ class UVBeam(UVBase):
             ] = other.coupling_matrix
 
         this.Nfreqs = this.freq_array.size
+        this._clear_saved_interp()
 
         # Check specific requirements
         if this.Nfreqs > 1:
@@ -2994,6 +3004,8 @@ class UVBeam(UVBase):
         else:
             beam_object = self.copy()
 
+        beam_object._clear_saved_interp()
+
         # build up history string as we go
         history_update_string = "  Downselected to specific "
         n_selects = 0
@@ -3305,6 +3317,7 @@ class UVBeam(UVBase):
         for p in other:
             param = getattr(other, p)
             setattr(self, p, param)
+        self._clear_saved_interp()
 
     def _convert_to_filetype(self, filetype):
         if filetype == "beamfits":
-- 
2.43.0


From 31f3aa23a7210d73b2231fefb1c590cba5677a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:36 +0000
Subject: [PATCH 087/160] fix: write real power beams with several
 polarizations to beamfits files that can be read

---
 src/pyuvdata/uvbeam/beamfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..aaed63c 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -700,8 +700,10 @@ class BeamFITS(UVBeam):
                 '"efield" or "power".'.format(type=self.beam_type)
             )
 
-        # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        # Add a spectral window axis after the basis vector axis for consistency
+        primary_data = np.expand_dims(
+            primary_data, axis=primary_data.ndim - self.data_array.ndim + 1
+        )
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From 009324a1430f1543168b1c3e8fab17125504c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:36 +0000
Subject: [PATCH 088/160] fix: read the requested range of a beamfits axis that
 is in decreasing order

---
 src/pyuvdata/uvbeam/beamfits.py | 47 +++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index aaed63c..7919961 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -47,6 +47,31 @@ fits_axisname_dict = {
 }
 
 
+def _range_slice(axis_array, axis_range, name):
+    """
+    Get the slice of a regularly spaced axis that is inside of a range.
+
+    Parameters
+    ----------
+    axis_array : ndarray of float
+        Regularly spaced values, either increasing or decreasing.
+    axis_range : tuple of float
+        The lower and upper limit of the values to keep.
+    name : str
+        Name of the axis to use in error messages.
+
+    Returns
+    -------
+    slice
+        The part of the axis inside of the range.
+
+    """
+    inds = np.nonzero((axis_array >= axis_range[0]) & (axis_array <= axis_range[1]))[0]
+    if inds.size == 0:
+        raise ValueError(f"No {name} values in the file are in the requested range.")
+    return slice(inds[0], inds[-1] + 1)
+
+
 class BeamFITS(UVBeam):
     """
     Defines a fits-specific subclass of UVBeam for reading and writing beamfits files.
@@ -178,13 +203,11 @@ class BeamFITS(UVBeam):
                     )
 
                 if az_range is not None:
-                    azmin = np.where(self.axis1_array >= np.deg2rad(az_range[0]))[0][0]
-                    azmax = (
-                        np.where(self.axis1_array <= np.deg2rad(az_range[1]))[0][-1] + 1
+                    az_mask = _range_slice(
+                        self.axis1_array, np.deg2rad(az_range), "azimuth"
                     )
-                    self.Naxes1 = azmax - azmin
-                    az_mask = slice(azmin, azmax)
                     self.axis1_array = self.axis1_array[az_mask]
+                    self.Naxes1 = self.axis1_array.size
 
                 axis2_units = primary_header.pop(
                     "CUNIT" + str(ax_nums["img_ax2"]), "deg"
@@ -197,13 +220,11 @@ class BeamFITS(UVBeam):
                     )
 
                 if za_range is not None:
-                    zamin = np.where(self.axis2_array >= np.deg2rad(za_range[0]))[0][0]
-                    zamax = (
-                        np.where(self.axis2_array <= np.deg2rad(za_range[1]))[0][-1] + 1
+                    za_mask = _range_slice(
+                        self.axis2_array, np.deg2rad(za_range), "zenith angle"
                     )
-                    self.Naxes2 = zamax - zamin
-                    za_mask = slice(zamin, zamax)
                     self.axis2_array = self.axis2_array[za_mask]
+                    self.Naxes2 = self.axis2_array.size
 
             n_efield_dims = max(ax_nums[key] for key in ax_nums)
 
@@ -256,11 +277,9 @@ class BeamFITS(UVBeam):
                     raise ValueError("Frequency units not recognized.")
 
             if freq_range is not None:
-                fmin = np.where(self.freq_array >= freq_range[0])[0][0]
-                fmax = np.where(self.freq_array <= freq_range[1])[0][-1] + 1
-                freq_mask = slice(fmin, fmax)
-                self.Nfreqs = fmax - fmin
+                freq_mask = _range_slice(self.freq_array, freq_range, "frequency")
                 self.freq_array = self.freq_array[freq_mask]
+                self.Nfreqs = self.freq_array.size
 
             if az_range is not None:
                 data = data[..., az_mask]
-- 
2.43.0


From b1a50ee7b04bb23c2e50e848beed877e15f7b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 089/160] fix: UVFlag.select accepts any sequence of
 freq_chans, also with one channel

---
 src/pyuvdata/uvflag/uvflag.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..49455c2 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2672,16 +2672,15 @@ class UVFlag(UVBase):
             freq_chans = utils.tools._get_iterable(freq_chans)
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
+            chan_freqs = self.freq_array[np.asarray(freq_chans)]
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
+                frequencies = chan_freqs
 
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
-                frequencies = np.sort(
-                    list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
-                    )
-                )
+                if np.array(frequencies).ndim > 1:
+                    frequencies = np.array(frequencies).flatten()
+                frequencies = np.sort(list(set(frequencies) | set(chan_freqs)))
 
         if frequencies is not None:
             frequencies = utils.tools._get_iterable(frequencies)
-- 
2.43.0


From bfd50119af14f755aa641852eb56a576e936c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 090/160] fix: UVFlag.select checks ant_inds and never repeats
 or reorders antennas

---
 src/pyuvdata/uvflag/uvflag.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 49455c2..a3c6eef 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2533,6 +2533,14 @@ class UVFlag(UVBase):
         else:
             ant_blt_inds = None
 
+        if ant_inds is not None and self.type == "antenna":
+            ant_inds = np.asarray(utils.tools._get_iterable(ant_inds)).flatten()
+            if max(ant_inds) >= self.Nants_data:
+                raise ValueError("ant_inds contains indices that are too large")
+            if min(ant_inds) < 0:
+                raise ValueError("ant_inds contains indices that are negative")
+            ant_inds = sorted(set(ant_inds.tolist()))
+
         if bls is not None:
             if self.type != "baseline":
                 raise ValueError(
-- 
2.43.0


From e5111f37bbce5978c184c78cfa0c478373bbdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 091/160] fix: UVFlag.to_baseline pairs a waterfall's rows with
 its times in the order they have

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a3c6eef..fe86bfb 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1512,7 +1512,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
-- 
2.43.0


From a65da3ad25e6c71b5d94fcbfe4b374275ba5215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 092/160] fix: UVFlag.to_baseline does not need a flag_array on
 the object it is matched to

---
 src/pyuvdata/uvflag/uvflag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index fe86bfb..7a5425c 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1505,12 +1505,13 @@ class UVFlag(UVBase):
                 raise ValueError("Polarizations could not be made to match.")
         if self.type == "waterfall":
             # Populate arrays
+            arr_shape = (uv.Nblts, self.Nfreqs, self.Npols)
             if self.mode == "flag":
-                arr = np.zeros_like(uv.flag_array)
+                arr = np.zeros(arr_shape, dtype=bool)
                 sarr = self.flag_array
             elif self.mode == "metric":
-                arr = np.zeros_like(uv.flag_array, dtype=np.float64)
-                warr = np.zeros_like(uv.flag_array, dtype=np.float64)
+                arr = np.zeros(arr_shape, dtype=np.float64)
+                warr = np.zeros(arr_shape, dtype=np.float64)
                 sarr = self.metric_array
             for i, t in enumerate(self.time_array):
                 ti = np.where(
-- 
2.43.0


From d8d980b95e2fca8592e13701a0645596b2c15936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 093/160] fix: UVFlag.sort_ant_metadata_like sorts the antenna
 diameters too

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 7a5425c..84ed431 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1383,6 +1383,10 @@ class UVFlag(UVBase):
                 self.telescope.antenna_positions = self.telescope.antenna_positions[
                     this_uv_sort
                 ]
+            if self.telescope.antenna_diameters is not None:
+                self.telescope.antenna_diameters = self.telescope.antenna_diameters[
+                    this_uv_sort
+                ]
 
     def to_baseline(
         self,
-- 
2.43.0


From 391a78cb64c0dd786308bf10eb9810549c06c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 094/160] fix: UVFlag.to_baseline leaves an antenna metric
 object it refuses unchanged

---
 src/pyuvdata/uvflag/uvflag.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 84ed431..c95bb97 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1434,6 +1434,11 @@ class UVFlag(UVBase):
                 "Must pass in UVData object or UVFlag object of type "
                 '"baseline" to match.'
             )
+        if self.type == "antenna" and self.mode == "metric":
+            raise NotImplementedError(
+                "Cannot currently convert from antenna type, metric mode to "
+                "baseline type UVFlag object."
+            )
 
         if self._freq_array != uv._freq_array:
             raise ValueError(
@@ -1535,11 +1540,6 @@ class UVFlag(UVBase):
                 self.metric_array = arr
                 self.weights_array = warr
         elif self.type == "antenna":
-            if self.mode == "metric":
-                raise NotImplementedError(
-                    "Cannot currently convert from antenna type, metric mode to "
-                    "baseline type UVFlag object."
-                )
             ants_data = np.unique(uv.ant_1_array.tolist() + uv.ant_2_array.tolist())
             new_ants = np.setdiff1d(ants_data, self.ant_array)
             if new_ants.size > 0:
-- 
2.43.0


From e8c5a3ea5a1afb1e330fa132101daf004a06d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 095/160] fix: UVFlag.to_baseline takes the number of times of
 the object it is matched to

---
 src/pyuvdata/uvflag/uvflag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index c95bb97..698e737 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1592,6 +1592,7 @@ class UVFlag(UVBase):
         self.time_array = uv.time_array
         self.lst_array = uv.lst_array
         self.Nblts = self.time_array.size
+        self.Ntimes = np.unique(self.time_array).size
 
         for param in self.telescope:
             this_param = getattr(self.telescope, param)
-- 
2.43.0


From d48f8f4dbf36358b7b7377ed54f7ad4788394c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 096/160] fix: UVFlag.to_baseline and to_antenna copy the
 metadata they take over

---
 src/pyuvdata/uvflag/uvflag.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 698e737..70553fc 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1487,7 +1487,7 @@ class UVFlag(UVBase):
         # Deal with polarization
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = uv.polarization_array
+            self.polarization_array = copy.deepcopy(uv.polarization_array)
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1583,14 +1583,14 @@ class UVFlag(UVBase):
             if uv.flex_spw_id_array is not None:
                 self.flex_spw_id_array = uv.flex_spw_id_array
 
-        self.baseline_array = uv.baseline_array
+        self.baseline_array = copy.deepcopy(uv.baseline_array)
         self.Nbls = np.unique(self.baseline_array).size
-        self.ant_1_array = uv.ant_1_array
-        self.ant_2_array = uv.ant_2_array
+        self.ant_1_array = copy.deepcopy(uv.ant_1_array)
+        self.ant_2_array = copy.deepcopy(uv.ant_2_array)
         self.Nants_data = int(np.union1d(self.ant_1_array, self.ant_2_array).size)
 
-        self.time_array = uv.time_array
-        self.lst_array = uv.lst_array
+        self.time_array = copy.deepcopy(uv.time_array)
+        self.lst_array = copy.deepcopy(uv.lst_array)
         self.Nblts = self.time_array.size
         self.Ntimes = np.unique(self.time_array).size
 
@@ -1599,7 +1599,7 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.deepcopy(uvd_param.value))
 
         self._set_type_baseline()
         self.clear_unused_attributes()
@@ -1717,7 +1717,7 @@ class UVFlag(UVBase):
             polarr = uv.polarization_array
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = polarr
+            self.polarization_array = copy.deepcopy(polarr)
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1755,7 +1755,7 @@ class UVFlag(UVBase):
             ]
             self.metric_array = self.metric_array.repeat(len(uv.ant_array), axis=0)
             self.weights_array = self.weights_array.repeat(len(uv.ant_array), axis=0)
-        self.ant_array = uv.ant_array
+        self.ant_array = copy.deepcopy(uv.ant_array)
         self.Nants_data = len(uv.ant_array)
 
         for param in self.telescope:
@@ -1763,7 +1763,7 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.deepcopy(uvd_param.value))
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-- 
2.43.0


From 1b908e24febd3b1e8681e46a972b62f17c890a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 097/160] fix: UVFlag drops the waterfall's
 weights_square_array when it is broadcast

---
 src/pyuvdata/uvflag/uvflag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 70553fc..1eec488 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1539,6 +1539,7 @@ class UVFlag(UVBase):
             elif self.mode == "metric":
                 self.metric_array = arr
                 self.weights_array = warr
+                self.weights_square_array = None
         elif self.type == "antenna":
             ants_data = np.unique(uv.ant_1_array.tolist() + uv.ant_2_array.tolist())
             new_ants = np.setdiff1d(ants_data, self.ant_array)
@@ -1755,6 +1756,7 @@ class UVFlag(UVBase):
             ]
             self.metric_array = self.metric_array.repeat(len(uv.ant_array), axis=0)
             self.weights_array = self.weights_array.repeat(len(uv.ant_array), axis=0)
+            self.weights_square_array = None
         self.ant_array = copy.deepcopy(uv.ant_array)
         self.Nants_data = len(uv.ant_array)
 
-- 
2.43.0


From 9afc1df0313397fd75f474e8ee88af97531abd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 098/160] fix: UVFlag.collapse_pol drops the
 weights_square_array of the polarizations it collapses

---
 src/pyuvdata/uvflag/uvflag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 1eec488..7976ccf 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1180,6 +1180,7 @@ class UVFlag(UVBase):
 
             if self.mode == "metric":
                 self.weights_array = np.expand_dims(w, axis=w.ndim)
+                self.weights_square_array = None
 
             self.polarization_array = np.array(
                 [",".join(map(str, self.polarization_array))], dtype=np.str_
-- 
2.43.0


From c1bfcf5be01b8d2243587328a1e6b05ca02072dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 099/160] fix: UVFlag.to_waterfall ignores
 return_weights_square for boolean collapses

---
 src/pyuvdata/uvflag/uvflag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 7976ccf..833434a 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1253,6 +1253,9 @@ class UVFlag(UVBase):
         ):
             warnings.warn("This object is already a waterfall. Nothing to change.")
             return
+        if method in ("or", "and"):
+            # there are no weights to square
+            return_weights_square = False
         if (not keep_pol) and (len(self.polarization_array) > 1):
             self.collapse_pol(method=method)
 
-- 
2.43.0


From c6a207becf20bdde1cb6c842f96eaf4bdc45f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:14 +0000
Subject: [PATCH 100/160] fix: UVFlag.__add__ refuses before it changes
 anything

---
 src/pyuvdata/uvflag/uvflag.py | 76 +++++++++++++++++------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 833434a..22dff34 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1970,11 +1970,6 @@ class UVFlag(UVBase):
                 "added to object of mode " + this.type + "."
             )
 
-        # Update filename parameter
-        this.filename = utils.tools._combine_filenames(this.filename, other.filename)
-        if this.filename is not None:
-            this._filename.form = (len(this.filename),)
-
         # Simplify axis referencing
         axis = axis.lower()
         type_nums = {"waterfall": 0, "baseline": 1, "antenna": 2}
@@ -2039,6 +2034,39 @@ class UVFlag(UVBase):
                         f"other object is {other_param.value}."
                     )
 
+        if ax is None:
+            raise ValueError(
+                f"Flag object of type {self.type} cannot be concatenated along "
+                f"{axis} axis."
+            )
+        if axis in ["polarization", "pol", "jones"] and (
+            this.pol_collapsed or other.pol_collapsed
+        ):
+            raise NotImplementedError(
+                "Two UVFlag objects with their polarizations collapsed cannot be "
+                "added along the polarization axis at this time."
+            )
+        if this.mode == "metric" and (this.weights_square_array is None) != (
+            other.weights_square_array is None
+        ):
+            missing = "first" if this.weights_square_array is None else "second"
+            raise ValueError(
+                f"weights_square_array optional parameter is missing from {missing} "
+                f"UVFlag object. To concatenate two {this.mode} objects, they"
+                " must both contain the same optional parameters set."
+            )
+        if axis == "time" and this.type != "baseline":
+            if np.intersect1d(this.time_array, other.time_array).size > 0:
+                raise ValueError("The two objects have overlapping times.")
+        elif axis == "frequency":
+            if np.intersect1d(this.freq_array, other.freq_array).size > 0:
+                raise ValueError("The two objects have overlapping frequencies.")
+
+        # Update filename parameter
+        this.filename = utils.tools._combine_filenames(this.filename, other.filename)
+        if this.filename is not None:
+            this._filename.form = (len(this.filename),)
+
         if axis == "time":
             this.time_array = np.concatenate([this.time_array, other.time_array])
             this.lst_array = np.concatenate([this.lst_array, other.lst_array])
@@ -2056,11 +2084,6 @@ class UVFlag(UVBase):
             this.Nblts = len(this.time_array)
 
         elif axis == "baseline":
-            if self.type != "baseline":
-                raise ValueError(
-                    "Flag object of type " + self.type + " cannot be "
-                    "concatenated along baseline axis."
-                )
             this.time_array = np.concatenate([this.time_array, other.time_array])
             this.lst_array = np.concatenate([this.lst_array, other.lst_array])
             this.baseline_array = np.concatenate(
@@ -2074,11 +2097,6 @@ class UVFlag(UVBase):
             this.Nblts = len(this.baseline_array)
 
         elif axis == "antenna":
-            if self.type != "antenna":
-                raise ValueError(
-                    "Flag object of type " + self.type + " cannot be "
-                    "concatenated along antenna axis."
-                )
             this.ant_array = np.concatenate([this.ant_array, other.ant_array])
             this.Nants_data = len(this.ant_array)
             temp_ant_nums = np.concatenate(
@@ -2142,35 +2160,17 @@ class UVFlag(UVBase):
             this.Nfreqs = np.unique(this.freq_array.flatten()).size
 
         elif axis in ["polarization", "pol", "jones"]:
-            if this.pol_collapsed:
-                raise NotImplementedError(
-                    "Two UVFlag objects with their "
-                    "polarizations collapsed cannot be "
-                    "added along the polarization axis "
-                    "at this time."
-                )
             this.polarization_array = np.concatenate(
                 [this.polarization_array, other.polarization_array]
             )
             this.Npols = len(this.polarization_array)
 
         for attr in this._data_params:
-            # Check that 'other' also has the attribute filled
-            if getattr(other, attr) is not None:
-                setattr(
-                    this,
-                    attr,
-                    np.concatenate(
-                        [getattr(this, attr), getattr(other, attr)], axis=ax
-                    ),
-                )
-            # May 21, 2020 - should only happen for weights_square_array attr
-            else:
-                raise ValueError(
-                    f"{attr} optional parameter is missing from second UVFlag"
-                    f" object. To concatenate two {this.mode} objects, they"
-                    " must both contain the same optional parameters set."
-                )
+            setattr(
+                this,
+                attr,
+                np.concatenate([getattr(this, attr), getattr(other, attr)], axis=ax),
+            )
 
         this.history += "Data combined along " + axis + " axis. "
         if not utils.history._check_history_version(
-- 
2.43.0


From 27f3e961493b811c1b2b09f7cf68ddc166780a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:07 +0000
Subject: [PATCH 101/160] fix: UVFlag.to_baseline refuses antenna metrics after
 comparing the metadata

---
 src/pyuvdata/uvflag/uvflag.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 22dff34..8ce1009 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1438,11 +1438,6 @@ class UVFlag(UVBase):
                 "Must pass in UVData object or UVFlag object of type "
                 '"baseline" to match.'
             )
-        if self.type == "antenna" and self.mode == "metric":
-            raise NotImplementedError(
-                "Cannot currently convert from antenna type, metric mode to "
-                "baseline type UVFlag object."
-            )
 
         if self._freq_array != uv._freq_array:
             raise ValueError(
@@ -1488,6 +1483,12 @@ class UVFlag(UVBase):
                         f"the value on uv is {uv_param.value}."
                     )
 
+        if self.type == "antenna" and self.mode == "metric":
+            raise NotImplementedError(
+                "Cannot currently convert from antenna type, metric mode to "
+                "baseline type UVFlag object."
+            )
+
         # Deal with polarization
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-- 
2.43.0


From c517bceeb4ff301b8ee7682050445bf302a48230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 102/160] fix: uvcalibrate matches the times and frequencies of
 the gains to those of the data

---
 src/pyuvdata/utils/uvcalibrate.py | 38 ++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/uvcalibrate.py b/src/pyuvdata/utils/uvcalibrate.py
index fb01f55..fa6de98 100644
--- a/src/pyuvdata/utils/uvcalibrate.py
+++ b/src/pyuvdata/utils/uvcalibrate.py
@@ -481,6 +481,34 @@ def uvcalibrate(
         uvcal_use = uvcal
         new_uvcal = False
 
+    # indexing arrays to match UVData blts to UVCal time inds and UVData channels
+    # to UVCal channels, the axes can be ordered differently on the two objects
+    if uvcal_use.Ntimes == 1:
+        cal_time_inds = None
+    elif uvcal.time_range is not None:
+        cal_time_inds = trange_ind_arr
+    else:
+        cal_time_inds = np.argmin(
+            np.abs(uvcal_use.time_array[np.newaxis] - uvdata_times[:, np.newaxis]),
+            axis=1,
+        )[uvd_time_ri]
+    cal_freq_inds = None
+    if uvcal_use.freq_array is not None and (
+        uvcal_use.Nfreqs != uvdata.Nfreqs
+        or not np.allclose(
+            uvcal_use.freq_array,
+            uvdata.freq_array,
+            atol=uvdata._freq_array.tols[1],
+            rtol=uvdata._freq_array.tols[0],
+        )
+    ):
+        cal_freq_inds = np.argmin(
+            np.abs(
+                uvcal_use.freq_array[np.newaxis] - uvdata.freq_array[:, np.newaxis]
+            ),
+            axis=1,
+        )
+
     # input checks
     if uvcal_use.cal_type == "delay":
         if not new_uvcal:
@@ -559,9 +587,13 @@ def uvcalibrate(
                 ).T  # tranpose to match uvdata shape
             flag = (uvcal_use.get_flags(uvcal_key1) | uvcal_use.get_flags(uvcal_key2)).T
 
-            if uvcal.time_range is not None and uvcal.Ntimes > 1:
-                gain = gain[trange_ind_arr[blt_inds], :]
-                flag = flag[trange_ind_arr[blt_inds], :]
+            if cal_freq_inds is not None:
+                gain = gain[:, cal_freq_inds]
+                flag = flag[:, cal_freq_inds]
+
+            if cal_time_inds is not None:
+                gain = gain[cal_time_inds[blt_inds], :]
+                flag = flag[cal_time_inds[blt_inds], :]
 
             # propagate flags
             if prop_flags:
-- 
2.43.0


From 1ae7aafaa6b122f1ab32d51888aa6c4bc34962cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 103/160] fix: apply_uvflag reorders the flags along with the
 polarizations

---
 src/pyuvdata/utils/apply_uvflag.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..d517de0 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -65,15 +65,15 @@ def apply_uvflag(
                 # if uvf is 1pol we can make them match: also edits inplace
                 uvf.polarization_array = uvd.polarization_array
                 uvf.Npols = len(uvf.polarization_array)
-                uvf_pols = uvf.polarization_array.tolist()
 
             else:
                 raise ValueError("Input uvf and uvd polarizations do not match")
 
-        # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
+        elif uvd_pols != uvf_pols:
+            # make sure polarization ordering is correct: also edits inplace
+            pol_order = [uvf_pols.index(pol) for pol in uvd_pols]
+            uvf.polarization_array = uvf.polarization_array[pol_order]
+            uvf.flag_array = uvf.flag_array[..., pol_order]
 
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
-- 
2.43.0


From b40355b81363d547c06cb58588cad9d0b9b53853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 104/160] fix: apply_uvflag refuses times and frequencies that
 are below those of the data

---
 src/pyuvdata/utils/apply_uvflag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index d517de0..98ef4ee 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -81,7 +81,7 @@ def apply_uvflag(
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
         tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
-        mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
+        mismatch_times = np.any(np.abs(tdiff) > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
     if mismatch_times:
@@ -91,7 +91,7 @@ def apply_uvflag(
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
         fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
-        mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
+        mismatch_freqs = np.any(np.abs(fdiff) > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
-- 
2.43.0


From 25f6287d98100fbe703779d8cde868e45cef98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 105/160] fix: apply_uvflag matches the frequencies of flags
 that are ordered differently

---
 src/pyuvdata/utils/apply_uvflag.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index 98ef4ee..d9e4b3b 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -97,6 +97,16 @@ def apply_uvflag(
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
+    elif uvf.Nfreqs > 1 and not np.allclose(
+        uvf.freq_array, uvd.freq_array, rtol=0, atol=np.max(np.abs(uvf._freq_array.tols))
+    ):
+        # same frequencies in a different order
+        freq_order = np.argmin(
+            np.abs(uvf.freq_array[np.newaxis] - uvd.freq_array[:, np.newaxis]), axis=1
+        )
+        uvf.freq_array = uvf.freq_array[freq_order]
+        uvf.flag_array = uvf.flag_array[:, freq_order]
+
     # unflag if desired
     if unflag_first:
         uvd.flag_array[:] = False
-- 
2.43.0


From c8e768d63eb74cac67c51f724c7d9239e11aedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:57 +0000
Subject: [PATCH 106/160] fix: apply_uvflag matches the times of each baseline
 instead of their positions

---
 src/pyuvdata/utils/apply_uvflag.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index d9e4b3b..6bd546a 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -121,6 +121,19 @@ def apply_uvflag(
                 uvd.flag_array[uvd_ap_inds] = True
             continue
         uvf_ap_inds = uvf.antpair2ind(*ap)
+        if uvf.Ntimes > 1:
+            # match up the times of this antpair, some can be missing on uvf
+            uvd_ap_inds = np.arange(uvd.Nblts)[uvd_ap_inds]
+            uvf_ap_inds = np.arange(uvf.Nblts)[uvf_ap_inds]
+            tdiff = np.abs(
+                uvf.time_array[uvf_ap_inds][np.newaxis]
+                - uvd.time_array[uvd_ap_inds][:, np.newaxis]
+            )
+            has_match = np.min(tdiff, axis=1) <= np.max(np.abs(uvf._time_array.tols))
+            if flag_missing:
+                uvd.flag_array[uvd_ap_inds[~has_match]] = True
+            uvf_ap_inds = uvf_ap_inds[np.argmin(tdiff, axis=1)[has_match]]
+            uvd_ap_inds = uvd_ap_inds[has_match]
         # addition of boolean is OR
         uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
 
-- 
2.43.0


From e7c9a71a7fb4fdad0513025841c53566018cc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 107/160] fix: write_calfits keeps the direction of a
 descending frequency axis

---
 src/pyuvdata/uvcal/calfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b70a649..a7778ee 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -113,6 +113,9 @@ class CALFITS(UVCal):
                 delta_freq_array = rounded_spacing[0]
             else:
                 delta_freq_array = np.median(self.channel_width)
+                if self.freq_array[1] < self.freq_array[0]:
+                    # channel widths are positive, keep the direction of the axis
+                    delta_freq_array = -delta_freq_array
         else:
             if self.channel_width is not None:
                 delta_freq_array = self.channel_width[0]
-- 
2.43.0


From 05974c7b9f9417690dd6cdbe7d7fb771af18c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 108/160] fix: read_calfits does not leave CHWIDTH in the extra
 keywords of delay files

---
 src/pyuvdata/uvcal/calfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index a7778ee..cc20841 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -682,6 +682,8 @@ class CALFITS(UVCal):
             if self.cal_type == "delay":
                 self._set_delay()
                 self.Nfreqs = 1
+                # written for all cal types, but only meaningful for gains
+                hdr.pop("CHWIDTH", None)
 
                 sechdu = fname[hdunames["FLAGS"]]
                 assert self.Nspws == 1, (
-- 
2.43.0


From 825f24bf3cab4186a3ff79d9b2c3df73fa44ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 109/160] fix: write_calfits refuses wide-band gains instead of
 dropping their frequency range

---
 src/pyuvdata/uvcal/calfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index cc20841..ae34d90 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -80,6 +80,9 @@ class CALFITS(UVCal):
                 "The calfits format does not support multiple spectral windows"
             )
 
+        if self.cal_type == "gain" and self.freq_array is None:
+            raise ValueError("The calfits format does not support wide-band gains")
+
         if run_check:
             self.check(
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
-- 
2.43.0


From 9513f62fba394e76cbbca70f6d1ad0630adcc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 110/160] fix: write_calfits refuses flexible-Jones objects
 instead of dropping their Jones terms

---
 src/pyuvdata/uvcal/calfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index ae34d90..7d83d86 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -83,6 +83,9 @@ class CALFITS(UVCal):
         if self.cal_type == "gain" and self.freq_array is None:
             raise ValueError("The calfits format does not support wide-band gains")
 
+        if self.flex_jones_array is not None:
+            raise ValueError("The calfits format does not support flexible-Jones data")
+
         if run_check:
             self.check(
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
-- 
2.43.0


From c0dbc834c27f3845fcca8dc4face212b57e15f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:52 +0000
Subject: [PATCH 111/160] fix: write_calfits does not truncate antenna names to
 8 characters

---
 src/pyuvdata/uvcal/calfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index 7d83d86..f87dc74 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -456,8 +456,11 @@ class CALFITS(UVCal):
         prihdu = fits.PrimaryHDU(data=pridata, header=prihdr)
 
         # ant HDU
+        name_length = max(8, *(len(name) for name in self.telescope.antenna_names))
         col1 = fits.Column(
-            name="ANTNAME", format="8A", array=self.telescope.antenna_names
+            name="ANTNAME",
+            format=f"{name_length}A",
+            array=self.telescope.antenna_names,
         )
         col2 = fits.Column(
             name="ANTINDEX", format="D", array=self.telescope.antenna_numbers
-- 
2.43.0


From 0ad934fc30f6de008b710c7723075f0df1427b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 112/160] fix: write_uvh5_part accepts the object the file was
 initialized from if it is new

---
 src/pyuvdata/uvdata/uvh5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index c657322..c6c8cca 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1603,6 +1603,10 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
+        # reading the header adds the pyuvdata version to a history without it
+        if uvd_file.history == self.history + self.pyuvdata_version_str:
+            uvd_file.history = self.history
+
         headers_match = self == uvd_file
 
         # clean up after ourselves
-- 
2.43.0


From cd556ea5bce0c855ee655ac0bfaedd481d4623c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 113/160] fix: normalize_by_autos matches times when the data
 are not in time order

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index fe23785..68fbb1d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -12032,7 +12032,7 @@ class UVData(UVBase):
         # group the data by time.
         time_ordered = not np.any(self.time_array[:-1] > self.time_array[1:])
         blt_idx = np.arange(self.Nblts) if time_ordered else np.argsort(self.time_array)
-        ordered_time = self.time_array[blt_idx if time_ordered else ...]
+        ordered_time = self.time_array[blt_idx]
 
         # Normally time has a fixed atol, but verify that this is the case
         time_tol = self._time_array.tols[1]
-- 
2.43.0


From 46745b8377b43233e6bedf0a5624a15b4a7615bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 114/160] fix: inflate_by_redundancy inflates the
 scan_number_array

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 68fbb1d..20b662e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9027,6 +9027,8 @@ class UVData(UVBase):
         self.lst_array = self.lst_array[blt_map]
         self.integration_time = self.integration_time[blt_map]
         self.uvw_array = self.uvw_array[blt_map, ...]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
 
         self.baseline_array = full_baselines
         self.ant_1_array, self.ant_2_array = self.baseline_to_antnums(
-- 
2.43.0


From ad0573ffa9939666d70efa99e461131038ba500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 115/160] fix: get_redundancies does not compare uvws of
 different phase centers

---
 src/pyuvdata/uvdata/uvdata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 20b662e..1ede1af 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8688,7 +8688,12 @@ class UVData(UVBase):
         baselines = np.take(self.baseline_array, unique_inds)
 
         self.set_rectangularity(force=True)
-        if self.blts_are_rectangular or np.all(self._check_for_cat_type("unprojected")):
+        one_phase_center = (
+            np.unique(np.take(self.phase_center_id_array, unique_inds)).size == 1
+        )
+        if (self.blts_are_rectangular and one_phase_center) or np.all(
+            self._check_for_cat_type("unprojected")
+        ):
             # we can just use the uvws to find redundancy
             baseline_vecs = np.take(self.uvw_array, unique_inds, axis=0)
         else:
-- 
2.43.0


From 2012d4c0ecac334c9502ecc82c262896051296c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 116/160] fix: compress_by_redundancy averages visibilities
 that are flagged on all baselines

---
 src/pyuvdata/uvdata/uvdata.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1ede1af..2523295 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8911,11 +8911,8 @@ class UVData(UVBase):
                         flags_to_avg = np.concatenate(
                             (self.flag_array[regular_inds], self.flag_array[conj_inds])
                         )
-                        # if all data is flagged, average it all as if it were not
-                        if np.all(flags_to_avg):
-                            mask = np.zeros_like(flags_to_avg)
-                        else:
-                            mask = flags_to_avg
+                        # where all data is flagged, average it all as if it were not
+                        mask = flags_to_avg & ~np.all(flags_to_avg, axis=0)
 
                         vis_to_avg = np.ma.masked_array(vis_to_avg, mask=mask)
 
-- 
2.43.0


From 4fbf65fae467b2dfb860e45775a92dddcfb5e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:40 +0000
Subject: [PATCH 117/160] fix: compress_by_redundancy swaps the cross pols of
 baselines it conjugates to average

---
 src/pyuvdata/uvdata/uvdata.py | 38 ++++++++++++++---------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 2523295..255d816 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8782,12 +8782,6 @@ class UVData(UVBase):
             new_obj.select(bls=bl_ants, keep_all_metadata=keep_all_metadata)
 
             if not self.metadata_only:
-                # If the baseline is in the "conjugated" list, we will need to
-                # fix the conjugation on assignment (since the visibilities are
-                # tabulated assuming that the baseline position is on the opposite
-                # side of the uvw origin).
-                fix_conj = np.isin(new_obj.baseline_array, conjugates)
-
                 # initalize the data like arrays
                 new_data_shape = (new_obj.Nblts, new_obj.Nfreqs, new_obj.Npols)
                 temp_data_array = np.zeros(new_data_shape, dtype=self.data_array.dtype)
@@ -8796,13 +8790,15 @@ class UVData(UVBase):
                 )
                 temp_flag_array = np.zeros(new_data_shape, dtype=self.flag_array.dtype)
             for grp_ind, group in enumerate(red_gps):
-                if len(conjugates) > 0:
-                    conj_group = set(group).intersection(conjugates)
-                    reg_group = list(set(group) - conj_group)
-                    conj_group = list(conj_group)
-                else:
-                    reg_group = group
-                    conj_group = []
+                # The baselines that are oriented opposite to the index baseline have to
+                # be conjugated (which also swaps the cross pols) before averaging.
+                is_conj = np.isin(group, conjugates)
+                opposite = is_conj != is_conj[0]
+                reg_group = [bl for bl, opp in zip(group, opposite) if not opp]
+                conj_group = [bl for bl, opp in zip(group, opposite) if opp]
+                conj_pols = np.s_[:]
+                if len(conj_group) > 0 and not self.metadata_only:
+                    conj_pols = utils.pol.reorder_conj_pols(self.polarization_array)
                 group_times = []
                 group_inds = []
                 conj_group_inds = []
@@ -8899,17 +8895,20 @@ class UVData(UVBase):
                         vis_to_avg = np.concatenate(
                             (
                                 self.data_array[regular_inds],
-                                np.conj(self.data_array[conj_inds]),
+                                np.conj(self.data_array[conj_inds][..., conj_pols]),
                             )
                         )
                         nsample_to_avg = np.concatenate(
                             (
                                 self.nsample_array[regular_inds],
-                                self.nsample_array[conj_inds],
+                                self.nsample_array[conj_inds][..., conj_pols],
                             )
                         )
                         flags_to_avg = np.concatenate(
-                            (self.flag_array[regular_inds], self.flag_array[conj_inds])
+                            (
+                                self.flag_array[regular_inds],
+                                self.flag_array[conj_inds][..., conj_pols],
+                            )
                         )
                         # where all data is flagged, average it all as if it were not
                         mask = flags_to_avg & ~np.all(flags_to_avg, axis=0)
@@ -8924,13 +8923,6 @@ class UVData(UVBase):
                         avg_nsample = np.sum(nsample_to_avg, axis=0)
                         avg_flag = np.all(flags_to_avg, axis=0)
                         temp_data_array[this_obj_ind] = avg_vis
-
-                        # If we need to flip the conjugation, to that on the
-                        # value assignment here.
-                        if fix_conj[this_obj_ind]:
-                            temp_data_array[this_obj_ind] = np.conj(avg_vis)
-                        else:
-                            temp_data_array[this_obj_ind] = avg_vis
                         temp_nsample_array[this_obj_ind] = avg_nsample
                         temp_flag_array[this_obj_ind] = avg_flag
 
-- 
2.43.0


From 7da1bd42a0a9bea4636c18ee9adfa10b5679a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:40 +0000
Subject: [PATCH 118/160] fix: flex-pol conversions keep the eq_coeffs in step
 with the frequency axis

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 255d816..4b78a25 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1863,6 +1863,8 @@ class UVData(UVBase):
             # now things are in the correct order to do a simple reshape
             self.freq_array = freq_array_use[: self.Nfreqs]
             self.channel_width = self.channel_width[: self.Nfreqs]
+            if self.eq_coeffs is not None:
+                self.eq_coeffs = self.eq_coeffs[:, : self.Nfreqs]
 
             self.polarization_array = pol_array_check[
                 np.sort(np.unique(pol_array_check, return_index=True)[1])
@@ -2071,6 +2073,8 @@ class UVData(UVBase):
         freq_array_use = self.freq_array
         self.freq_array = np.tile(freq_array_use, self.Npols)
         self.channel_width = np.tile(self.channel_width, self.Npols)
+        if self.eq_coeffs is not None:
+            self.eq_coeffs = np.tile(self.eq_coeffs, (1, self.Npols))
         if not self.metadata_only:
             # we use the order="F" parameter here to ensure that polarization is the
             # slowest changing axis
-- 
2.43.0


From c47abfd0156df3375fd4452de8a8363c646c913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:20 +0000
Subject: [PATCH 119/160] fix: inflate_by_redundancy updates Ntimes

---
 src/pyuvdata/uvdata/uvdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4b78a25..8341c64 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9035,6 +9035,7 @@ class UVData(UVBase):
         self.Nants_data = self._calc_nants_data()
         self.Nbls = np.unique(self.baseline_array).size
         self.Nblts = Nblts_full
+        self.Ntimes = np.unique(self.time_array).size
 
         self.phase_center_app_ra = self.phase_center_app_ra[blt_map]
         self.phase_center_app_dec = self.phase_center_app_dec[blt_map]
-- 
2.43.0


From 2d25a57009da29c6020287def17078232d6d8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 120/160] fix: UVCal delays that differ by nanoseconds are not
 equal

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 43ea048..3436a6e 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -351,6 +351,8 @@ class UVCal(UVBase):
             required=False,
             form=("Nants_data", "Nspws", "Ntimes", "Njones"),
             expected_type=float,
+            # delays are in seconds: the default absolute tolerance would be 10 ns
+            tols=(1e-5, 1e-15),
         )
 
         # --- flexible spectral window information ---
-- 
2.43.0


From 0e4276f2863f4dc3084572a217e487cf5a33c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 121/160] fix: UVBeam element delays that differ by nanoseconds
 are not equal

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 24d82f5..c3ab0b9 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -437,6 +437,8 @@ class UVBeam(UVBase):
             description=desc,
             form=("Nelements",),
             expected_type=float,
+            # delays are in seconds: the default absolute tolerance would be 10 ns
+            tols=(1e-5, 1e-15),
         )
 
         desc = (
-- 
2.43.0


From b0d5b5227c787370a707d89c83cab9e6b74a05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 122/160] fix: a UVCal initialized from a UVData object does
 not share its arrays

---
 src/pyuvdata/uvcal/initializers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 338b4f6..1ad0a8c 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -5,6 +5,7 @@
 """From-memory initializers for UVCal objects."""
 from __future__ import annotations
 
+import copy
 import warnings
 from typing import Literal
 
@@ -468,10 +469,12 @@ def new_uvcal_from_uvdata(
             freq_array = kwargs.pop("freq_array", None)
             flex_spw_id_array = kwargs.pop("flex_spw_id_array", None)
         else:
-            freq_array = uvdata.freq_array
-            channel_width = uvdata.channel_width
-            flex_spw_id_array = getattr(
-                uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+            freq_array = copy.copy(uvdata.freq_array)
+            channel_width = copy.copy(uvdata.channel_width)
+            flex_spw_id_array = copy.copy(
+                getattr(
+                    uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+                )
             )
         freq_range = None
         if "freq_range" in kwargs:
@@ -615,13 +618,13 @@ def new_uvcal_from_uvdata(
         if np.all(uvdata.polarization_array < -4):
             if uvdata.Npols == 1 and uvdata.polarization_array[0] > -7:
                 # single pol data, make a single pol cal object
-                jones_array = uvdata.polarization_array
+                jones_array = uvdata.polarization_array.copy()
             else:
                 jones_array = np.array([-5, -6])
         elif np.all(uvdata.polarization_array < 0):
             if uvdata.Npols == 1 and uvdata.polarization_array[0] > -3:
                 # single pol data, make a single pol cal object
-                jones_array = uvdata.polarization_array
+                jones_array = uvdata.polarization_array.copy()
             else:
                 jones_array = np.array([-1, -2])
         else:
-- 
2.43.0


From 29f2d8fa5c192a7cb7a1274d62d1f954789bd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 123/160] fix: UVData.new keeps lsts and integration times with
 their (unsorted) times

---
 src/pyuvdata/uvdata/initializers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index dcc4ec9..3db3f31 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -135,7 +135,7 @@ def configure_blt_rectangularity(
     """Configure blt rectangularity parameters for new UVData object."""
     # Whatever we do, we have to find the unique set of times and baselines, either
     # to check the user input, or to use it.
-    unique_times = np.unique(times)
+    unique_times, time_inds = np.unique(times, return_index=True)
     unique_antpairs = np.unique(antpairs, axis=0)
     nt, nbl = len(unique_times), len(unique_antpairs)
 
@@ -178,7 +178,10 @@ def configure_blt_rectangularity(
 
         if time_axis_faster_than_bls:
             times = np.tile(unique_times, nbl)
-            time_sized_arrays = tuple(np.tile(arr, nbl) for arr in time_sized_arrays)
+            # the times are sorted here, so the arrays that go with them must be too
+            time_sized_arrays = tuple(
+                np.tile(arr[time_inds], nbl) for arr in time_sized_arrays
+            )
             antpairs = np.repeat(unique_antpairs, nt, axis=0)
         else:
             antpairs = np.tile(antpairs, (nt, 1))
-- 
2.43.0


From e00145d1ba7c40f737cdc368a8a6d7763dffa239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 124/160] fix: inferred integration times belong to their
 times, unsorted or repeated

---
 src/pyuvdata/uvdata/initializers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 3db3f31..bb709c0 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -46,18 +46,18 @@ def get_time_params(
         if time_array.ndim == 2:
             integration_time = np.squeeze(np.diff(time_array, axis=1) * 86400)
         else:
-            utimes = np.sort(list(set(time_array)))
+            utimes, inverse = np.unique(time_array, return_inverse=True)
             if len(utimes) > 1:
                 integration_time = np.diff(utimes) * 86400
                 integration_time = np.concatenate(
                     [integration_time, integration_time[-1:]]
-                )
+                )[inverse]
             else:
                 warnings.warn(
                     "integration_time not provided, and cannot be inferred from "
                     "time_array, setting to 1 second"
                 )
-                integration_time = np.array([1.0])
+                integration_time = np.ones(time_array.shape, dtype=float)
 
     if np.isscalar(integration_time):
         if time_array.ndim == 2:
-- 
2.43.0


From eb3fe4cd41aa74bd6e7e11217644c685af7eefd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 125/160] fix: integration_time is inferred from a single
 time_range

---
 src/pyuvdata/uvdata/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index bb709c0..a77a043 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -44,7 +44,7 @@ def get_time_params(
 
     if integration_time is None:
         if time_array.ndim == 2:
-            integration_time = np.squeeze(np.diff(time_array, axis=1) * 86400)
+            integration_time = np.squeeze(np.diff(time_array, axis=1) * 86400, axis=1)
         else:
             utimes, inverse = np.unique(time_array, return_inverse=True)
             if len(utimes) > 1:
-- 
2.43.0


From 6db26eddc7f5e5198939f50bda1a14e07c65dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 126/160] fix: inferred channel widths are positive for
 descending frequencies

---
 src/pyuvdata/uvdata/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index a77a043..d20a17d 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -92,7 +92,7 @@ def get_freq_params(
 
     if channel_width is None:
         if freq_array.size > 1:
-            channel_width = freq_array[1:] - freq_array[:-1]
+            channel_width = np.abs(freq_array[1:] - freq_array[:-1])
             channel_width = np.concatenate([channel_width, channel_width[-1:]])
         else:
             warnings.warn(
-- 
2.43.0


From 1fbb81347f3b746eb5df51b420b585603528da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 127/160] fix: UVData.new with blts_are_rectangular and a
 single blt

---
 src/pyuvdata/uvdata/initializers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index d20a17d..f7843b3 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -200,7 +200,9 @@ def configure_blt_rectangularity(
         # the user to know what they're doing.
 
         # Since this is fast, we just do it, rather than trusting the user.
-        time_axis_faster_than_bls = np.abs(times[1] - times[0]) > 0
+        time_axis_faster_than_bls = bool(
+            len(times) > 1 and np.abs(times[1] - times[0]) > 0
+        )
 
     elif blts_are_rectangular is False:
         time_axis_faster_than_bls = None
-- 
2.43.0


From 44d2f17bde53d419fe0d30d3832bb978ff04d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 128/160] fix: UVData.new uses the telescope's x_orientation
 for polarization strings

---
 src/pyuvdata/uvdata/initializers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index f7843b3..1b96ca7 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -579,6 +579,8 @@ def new_uvdata(
 
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
+        if telescope.x_orientation is not None:
+            x_orientation = telescope.x_orientation
         polarization_array = utils.polstr2num(
             polarization_array, x_orientation=x_orientation
         )
-- 
2.43.0


From f64bff7fa401820d3809d28cef029dac27971504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 129/160] fix: UVData.new does not claim a blt order that the
 blts do not have

---
 src/pyuvdata/uvdata/initializers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 1b96ca7..4801d62 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -527,7 +527,9 @@ def new_uvdata(
     )
 
     if antpairs is None:
-        bl_order = ("ant1", "ant2")
+        bl_order = None
+        if np.all(np.diff(telescope.antenna_numbers) > 0):
+            bl_order = ("ant1", "ant2")
         antpairs = list(combinations_with_replacement(telescope.antenna_numbers, 2))
         do_blt_outer = True
     else:
@@ -557,8 +559,10 @@ def new_uvdata(
     if bl_order is not None and blts_are_rectangular:
         if time_axis_faster_than_bls:
             blt_order = ("ant1", "ant2")
-        else:
+        elif np.all(np.diff(time_array) >= 0):
             blt_order = ("time", "ant1")
+        else:
+            blt_order = None
     else:
         blt_order = None
 
-- 
2.43.0


From cf05ec653f33ed01e63d82cfd76b66843b08c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 130/160] fix: antenna diameters stay with their antennas in
 initialize_from_uvdata

---
 src/pyuvdata/uvcal/initializers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 1ad0a8c..0da0aac 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -548,7 +548,10 @@ def new_uvcal_from_uvdata(
                 new_telescope.antenna_diameters is not None
                 and "antenna_diameters" not in kwargs
             ):
-                antenna_diameters = new_telescope.antenna_diameters[idx]
+                # sorted by antenna number, like the other antenna metadata below
+                antenna_diameters = new_telescope.antenna_diameters[idx][
+                    np.argsort(antenna_numbers)
+                ]
             elif "antenna_diameters" in kwargs:
                 antenna_diameters = kwargs.pop("antenna_diameters")
             else:
-- 
2.43.0


From a4513852a3bfb8fc7bd44831d67240499f102abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:52 +0000
Subject: [PATCH 131/160] fix: number the baselines of the combined or
 conjugated object together

The baseline numbering depends on the largest antenna number in the call, so
adding, concatenating or conjugating objects with antenna numbers above 2047
gave baseline_arrays that mixed numbering schemes and missed overlapping data.
---
 src/pyuvdata/uvdata/uvdata.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8341c64..21056bb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3703,8 +3703,9 @@ class UVData(UVBase):
             ant_2_vals = self.ant_2_array[index_array]
             self.ant_1_array[index_array] = ant_2_vals
             self.ant_2_array[index_array] = ant_1_vals
-            self.baseline_array[index_array] = self.antnums_to_baseline(
-                self.ant_1_array[index_array], self.ant_2_array[index_array]
+            # The numbering depends on the largest antenna number, so do them all.
+            self.baseline_array = self.antnums_to_baseline(
+                self.ant_1_array, self.ant_2_array
             )
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
@@ -5337,6 +5338,16 @@ class UVData(UVBase):
         history_update_string = " Combined data along "
         n_axes = 0
 
+        # The baseline numbering depends on the largest antenna number, so number the
+        # baselines of the two objects together to make them comparable.
+        this_bls, other_bls = np.split(
+            this.antnums_to_baseline(
+                np.concatenate([this.ant_1_array, other.ant_1_array]),
+                np.concatenate([this.ant_2_array, other.ant_2_array]),
+            ),
+            [this.Nblts],
+        )
+
         # Create blt arrays for convenience
         prec_t = -2 * np.floor(np.log10(this._time_array.tols[-1])).astype(int)
         prec_b = 8
@@ -5345,7 +5356,7 @@ class UVData(UVBase):
                 "_".join(
                     ["{1:.{0}f}".format(prec_t, blt[0]), str(blt[1]).zfill(prec_b)]
                 )
-                for blt in zip(this.time_array, this.baseline_array)
+                for blt in zip(this.time_array, this_bls)
             ]
         )
         other_blts = np.array(
@@ -5353,7 +5364,7 @@ class UVData(UVBase):
                 "_".join(
                     ["{1:.{0}f}".format(prec_t, blt[0]), str(blt[1]).zfill(prec_b)]
                 )
-                for blt in zip(other.time_array, other.baseline_array)
+                for blt in zip(other.time_array, other_bls)
             ]
         )
         # Check we don't have overlapping data
@@ -5628,9 +5639,9 @@ class UVData(UVBase):
             this.ant_2_array = np.concatenate(
                 [this.ant_2_array, other.ant_2_array[bnew_inds]]
             )[blt_order]
-            this.baseline_array = np.concatenate(
-                [this.baseline_array, other.baseline_array[bnew_inds]]
-            )[blt_order]
+            this.baseline_array = this.antnums_to_baseline(
+                this.ant_1_array, this.ant_2_array
+            )
             this.phase_center_app_ra = np.concatenate(
                 [this.phase_center_app_ra, other.phase_center_app_ra[bnew_inds]]
             )[blt_order]
@@ -6193,8 +6204,9 @@ class UVData(UVBase):
             this.lst_array = np.concatenate(
                 [this.lst_array] + [obj.lst_array for obj in other]
             )
-            this.baseline_array = np.concatenate(
-                [this.baseline_array] + [obj.baseline_array for obj in other]
+            # The baseline numbering depends on the largest antenna number
+            this.baseline_array = this.antnums_to_baseline(
+                this.ant_1_array, this.ant_2_array
             )
             this.Nbls = len(np.unique(this.baseline_array))
             this.integration_time = np.concatenate(
-- 
2.43.0


From 1aed1c936affba7dc41dd69f467a03907ef66b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:50 +0000
Subject: [PATCH 132/160] fix: do not hand out the cached lists of
 polarizations

---
 src/pyuvdata/utils/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/pol.py b/src/pyuvdata/utils/pol.py
index 3c01de1..53df7e3 100644
--- a/src/pyuvdata/utils/pol.py
+++ b/src/pyuvdata/utils/pol.py
@@ -130,12 +130,14 @@ def np_cache(function):
     @wraps(function)
     def wrapper(pol, x_orientation=None):
         try:
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
         except TypeError:
             if isinstance(pol, Iterable):
                 # Assume the reason that we got a type error is that pol was an array.
                 pol = tuple(pol)
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
+        # do not hand out the cached list, callers can modify what they get
+        return list(out) if isinstance(out, list) else out
 
     # copy lru_cache attributes over too
     wrapper.cache_info = function.cache_info
-- 
2.43.0


From 395b64555279a49f8fd68fcf8ad2ceeb42d18376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:50 +0000
Subject: [PATCH 133/160] fix: recognize the polarizations in an ant_str if
 x_orientation is set

---
 src/pyuvdata/utils/bls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 444482f..14ce0bd 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -194,7 +194,11 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     polarizations = []
     ants_data = uv.get_ants()
     ant_pairs_data = uv.get_antpairs()
-    pols_data = uv.get_pols()
+    # the feeds are x, y, l or r in ant_str, whatever the x_orientation is
+    pols_data = [
+        polnum2str(polstr2num(pol, x_orientation=x_orientation)).lower()
+        for pol in uv.get_pols()
+    ]
     warned_ants = []
     warned_pols = []
 
-- 
2.43.0


From 72584e9b9bdf759d18d3e77be5d09d9fd0e153db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:50 +0000
Subject: [PATCH 134/160] fix: an excluded baseline in an ant_str need not have
 been included before

---
 src/pyuvdata/utils/bls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 14ce0bd..f77ebdd 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -333,7 +333,11 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
                         if pols is not None:
                             for pol in pols:
                                 if pol.lower() in pols_data:
-                                    if uv.Npols == 1 and [pol.lower()] == pols_data:
+                                    if (
+                                        uv.Npols == 1
+                                        and [pol.lower()] == pols_data
+                                        and ant_tuple in ant_pairs_nums
+                                    ):
                                         ant_pairs_nums.remove(ant_tuple)
                                     if (
                                         polstr2num(pol, x_orientation=x_orientation)
-- 
2.43.0


From acc87f454c63f6dc26395372d16dfa4b4e7f4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:56 +0000
Subject: [PATCH 135/160] fix: an ant_str that names no baseline of the data
 does not stand for all of them

---
 src/pyuvdata/utils/bls.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index f77ebdd..0dcbda2 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -201,6 +201,7 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     ]
     warned_ants = []
     warned_pols = []
+    stokes_only = True
 
     if ant_str.startswith("-"):
         ant_str = "all," + ant_str
@@ -209,13 +210,16 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
         m = re.search(bl_re, ant_str[str_pos:])
         if m is None:
             if ant_str[str_pos:].upper().startswith("ALL"):
+                stokes_only = False
                 if len(ant_str[str_pos:].split(",")) > 1:
                     ant_pairs_nums = uv.get_antpairs()
             elif ant_str[str_pos:].upper().startswith("AUTO"):
+                stokes_only = False
                 for pair in ant_pairs_data:
                     if pair[0] == pair[1] and pair not in ant_pairs_nums:
                         ant_pairs_nums.append(pair)
             elif ant_str[str_pos:].upper().startswith("CROSS"):
+                stokes_only = False
                 for pair in ant_pairs_data:
                     if not (pair[0] == pair[1] or pair in ant_pairs_nums):
                         ant_pairs_nums.append(pair)
@@ -236,6 +240,7 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
             else:
                 str_pos = len(ant_str)
         else:
+            stokes_only = False
             m = m.groups()
             str_pos += len(m[0])
             if m[2] is None:
@@ -355,9 +360,9 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
 
     if ant_str.upper() == "ALL":
         ant_pairs_nums = None
-    elif len(ant_pairs_nums) == 0:
-        if not ant_str.upper() in ["AUTO", "CROSS"]:
-            ant_pairs_nums = None
+    elif len(ant_pairs_nums) == 0 and stokes_only:
+        # only pseudo-Stokes polarizations were given: there is no limit on the pairs
+        ant_pairs_nums = None
 
     if len(polarizations) == 0:
         polarizations = None
-- 
2.43.0


From 35174616023e1c123156bec267e03105e3f6e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:08 +0000
Subject: [PATCH 136/160] fix: a polarization named twice in an ant_str is
 selected once

---
 src/pyuvdata/utils/bls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 0dcbda2..116d795 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -224,13 +224,17 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
                     if not (pair[0] == pair[1] or pair in ant_pairs_nums):
                         ant_pairs_nums.append(pair)
             elif ant_str[str_pos:].upper().startswith("PI"):
-                polarizations.append(polstr2num("pI"))
+                if polstr2num("pI") not in polarizations:
+                    polarizations.append(polstr2num("pI"))
             elif ant_str[str_pos:].upper().startswith("PQ"):
-                polarizations.append(polstr2num("pQ"))
+                if polstr2num("pQ") not in polarizations:
+                    polarizations.append(polstr2num("pQ"))
             elif ant_str[str_pos:].upper().startswith("PU"):
-                polarizations.append(polstr2num("pU"))
+                if polstr2num("pU") not in polarizations:
+                    polarizations.append(polstr2num("pU"))
             elif ant_str[str_pos:].upper().startswith("PV"):
-                polarizations.append(polstr2num("pV"))
+                if polstr2num("pV") not in polarizations:
+                    polarizations.append(polstr2num("pV"))
             else:
                 raise ValueError(f"Unparsable argument {ant_str}")
 
-- 
2.43.0


From 6665414c17bf3a85fc84e5cc7446e43d1fd87bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:09 +0000
Subject: [PATCH 137/160] fix: all in an ant_str means all baselines at its end
 too

---
 src/pyuvdata/utils/bls.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 116d795..9a6d892 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -211,8 +211,7 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
         if m is None:
             if ant_str[str_pos:].upper().startswith("ALL"):
                 stokes_only = False
-                if len(ant_str[str_pos:].split(",")) > 1:
-                    ant_pairs_nums = uv.get_antpairs()
+                ant_pairs_nums = uv.get_antpairs()
             elif ant_str[str_pos:].upper().startswith("AUTO"):
                 stokes_only = False
                 for pair in ant_pairs_data:
-- 
2.43.0


From 6ada45db3d8b201432014f890c374639837793b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 138/160] fix: antenna position files with one antenna can be
 read

---
 src/pyuvdata/utils/io/antpos.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/utils/io/antpos.py b/src/pyuvdata/utils/io/antpos.py
index dbe215d..9909fe7 100644
--- a/src/pyuvdata/utils/io/antpos.py
+++ b/src/pyuvdata/utils/io/antpos.py
@@ -36,12 +36,15 @@ def read_antpos_csv(antenna_positions_file):
     formats = ["U10", "i8", np.longdouble, np.longdouble, np.longdouble]
 
     dt = np.rec.format_parser(formats, columns, [])
-    ant_array = np.genfromtxt(
-        antenna_positions_file,
-        delimiter=",",
-        autostrip=True,
-        skip_header=1,
-        dtype=dt.dtype,
+    # a file with a single antenna gives a zero-dimensional array
+    ant_array = np.atleast_1d(
+        np.genfromtxt(
+            antenna_positions_file,
+            delimiter=",",
+            autostrip=True,
+            skip_header=1,
+            dtype=dt.dtype,
+        )
     )
     antenna_names = ant_array["name"]
     antenna_numbers = ant_array["number"]
-- 
2.43.0


From de62794cabb2a177f463e0efc0746e9dad036bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 139/160] fix: known telescope antenna data go to the antennas
 they were matched to

---
 src/pyuvdata/telescopes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/telescopes.py b/src/pyuvdata/telescopes.py
index 290ee56..5a7f26b 100644
--- a/src/pyuvdata/telescopes.py
+++ b/src/pyuvdata/telescopes.py
@@ -640,6 +640,11 @@ class Telescope(UVBase):
                             f"known_telescope data. Not setting {ant_params_missing}."
                         )
                     else:
+                        # put the matches in the order of the antennas (those found
+                        # by name come before those found by number)
+                        telescope_ant_inds = np.array(telescope_ant_inds)[
+                            np.argsort(ant_inds)
+                        ]
                         known_telescope_list.extend(ant_params_missing)
                         if "antenna_positions" in ant_params_missing:
                             self.antenna_positions = ant_info["antenna_positions"][
-- 
2.43.0


From 3d190a39329d9ff9cc964fb261e0a77dad0bc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 140/160] fix: write the declination proper motion to
 measurement sets

---
 src/pyuvdata/utils/io/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index c065c59..8eb8fe5 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -1602,7 +1602,7 @@ def write_ms_source(filepath, uvobj=None, time_default=None, phase_center_catalo
             int_val = int_default
             sou_name = pc_dict["cat_name"]
             pm_dir = np.array(
-                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_ra")], dtype=np.double
+                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_dec")], dtype=np.double
             )
             if not np.all(np.isfinite(pm_dir)):
                 pm_dir[:] = 0.0
-- 
2.43.0


From 76b9e152d25c1ae84506fedc507143807bdf4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 141/160] fix: write_ms with flip_conj does not conjugate the
 data of the object

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 73fd904..64bc3d4 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -203,7 +203,7 @@ class MS(UVData):
                 temp_vals = arr[:, :, pol_order]
 
                 if flip_conj and ("DATA" in col):
-                    temp_vals = np.conj(temp_vals, out=temp_vals)
+                    temp_vals = np.conj(temp_vals)
 
                 ms.putcol(col, temp_vals)
 
-- 
2.43.0


From 1497cc8ca59473f3aa708aac92ad84bf5929cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 142/160] fix: read_ms leaves out the rows of ignored windows
 when one window is left

---
 src/pyuvdata/uvdata/ms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 64bc3d4..9135e16 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -506,8 +506,8 @@ class MS(UVData):
         if data_desc_count == 0:
             # If there are no records selected, then there isn't a whole lot to do
             return None, None, None, None
-        elif data_desc_count == 1:
-            # If we only have a single spectral window, then we can bypass a whole lot
+        elif data_desc_count == 1 and len(unique_data_desc) == 1:
+            # If we only have a single spectral window in the file, then we can bypass a whole lot
             # of slicing and dicing on account of there being a one-to-one relationship
             # in rows of the MS to the per-blt records of UVData objects.
             self.time_array = Time(
-- 
2.43.0


From 17da5a10b3ed15c519ca5f0425b44c0b89bc3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 143/160] fix: descending indices are turned into slices that
 hold all of them

---
 src/pyuvdata/utils/tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index fdd21d6..1e81720 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -107,19 +107,27 @@ def _convert_to_slices(
         eval_ind = np.where(indices)[0]
     else:
         eval_ind = indices
+
+    def _run_to_slice(first, last, step):
+        # the stop of a descending run is below its last index (None below zero)
+        if step is not None and step < 0:
+            return slice(first, last - 1 if last > 0 else None, step)
+        return slice(first, last + 1, step)
+
     # assert indices is longer than 2, or return trivial solutions
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
     if len(eval_ind) <= 2:
+        step = eval_ind[-1] - eval_ind[0]
         return [
-            slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
+            _run_to_slice(eval_ind[0], eval_ind[-1], 1 if step == 0 else step)
         ], True
 
     # Catch the simplest case of "give me a single slice or exit"
     if (max_nslice == 1) and return_index_on_fail:
         step = eval_ind[1] - eval_ind[0]
         if all(np.diff(eval_ind) == step):
-            return [slice(eval_ind[0], eval_ind[-1] + 1, step)], True
+            return [_run_to_slice(eval_ind[0], eval_ind[-1], step)], True
         return [indices], False
 
     # setup empty slices list
@@ -144,7 +152,7 @@ def _convert_to_slices(
         # if step != last_step, this ends the slice
         if step != last_step:
             # append to list
-            slices.append(slice(start, last_ind + 1, last_step))
+            slices.append(_run_to_slice(start, last_ind, last_step))
 
             # setup next step
             start = ind
@@ -153,7 +161,7 @@ def _convert_to_slices(
         last_ind = ind
 
     # Append the last slice
-    slices.append(slice(start, ind + 1, last_step))
+    slices.append(_run_to_slice(start, ind, last_step))
 
     # determine whether slices are a reasonable representation, and determine max_nslice
     # if only max_nslice_frac was supplied.
-- 
2.43.0


From 17b837e9015cdd45e45888f62b33bcbb5ef8bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 144/160] fix: pseudo-Stokes visibilities can be written to
 measurement sets

---
 src/pyuvdata/utils/io/ms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 8eb8fe5..6c71fff 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -1842,9 +1842,12 @@ def write_ms_polarization(
                 feed_pols = {
                     feed for pol in pol_str for feed in utils.pol.POL_TO_FEED_DICT[pol]
                 }
-                pol_types = [pol.lower() for pol in sorted(feed_pols)]
+                pol_types = sorted(feed_pols)
                 pol_tuples = np.asarray(
-                    [(pol_types.index(i), pol_types.index(j)) for i, j in pol_str],
+                    [
+                        [pol_types.index(feed) for feed in utils.pol.POL_TO_FEED_DICT[pol]]
+                        for pol in pol_str
+                    ],
                     dtype=np.int32,
                 )
 
@@ -1859,9 +1862,12 @@ def write_ms_polarization(
             feed_pols = {
                 feed for pol in pol_str for feed in utils.pol.POL_TO_FEED_DICT[pol]
             }
-            pol_types = [pol.lower() for pol in sorted(feed_pols)]
+            pol_types = sorted(feed_pols)
             pol_tuples = np.asarray(
-                [(pol_types.index(i), pol_types.index(j)) for i, j in pol_str],
+                [
+                    [pol_types.index(feed) for feed in utils.pol.POL_TO_FEED_DICT[pol]]
+                    for pol in pol_str
+                ],
                 dtype=np.int32,
             )
 
-- 
2.43.0


From cfcd03e8a89ff3e08737ce43aa84d1870e9addb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 145/160] fix: write_ms_cal fails whenever there is a total
 quality array

The total quality has axes (frequency, time, jones); the writer always
stripped a leading spectral window axis.
---
 src/pyuvdata/uvcal/ms_cal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 289be09..b438426 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -631,7 +631,10 @@ class MSCal(UVCal):
                 if self.quality_array is not None:
                     qual_arr *= self.quality_array[:, spw_sel, :, :]
                 if self.total_quality_array is not None:
-                    qual_arr *= self.total_quality_array[0][spw_sel, :, :]
+                    # Ignore any (old-style) leading axis of length one
+                    tot_qual = self.total_quality_array
+                    tot_qual = tot_qual.reshape((-1,) + tot_qual.shape[-2:])
+                    qual_arr *= tot_qual[spw_sel, :, :]
 
                 # We're going to leave a placeholder for SNR for now, since it's
                 # somewhat redundant and not totally clear how it's calculated.
-- 
2.43.0


From 76db29c8eb0e5c4ee2fdb0b511ca6120e8835e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 146/160] fix: write_ms_cal mislabels Jones elements that are
 not in CASA order

The solutions were written in CASA order, but the Jones labels recorded
next to them were in the order of the object.
---
 src/pyuvdata/uvcal/ms_cal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index b438426..ca2e412 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -482,7 +482,11 @@ class MSCal(UVCal):
                 ms.putkeyword("pyuvdata_xorient", self.telescope.x_orientation)
 
             if self.jones_array is not None:
-                ms.putkeyword("pyuvdata_jones", self.jones_array)
+                # The solutions get written in CASA order, record them as such
+                jones_order = utils.pol.determine_pol_order(
+                    self.jones_array, order="CASA"
+                )
+                ms.putkeyword("pyuvdata_jones", self.jones_array[jones_order])
 
             if self.flex_jones_array is not None:
                 ms.putkeyword("pyuvdata_flex_jones", self.flex_jones_array)
-- 
2.43.0


From ad51f62304f58b8b070d2967c3b404c0628d716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 147/160] fix: write_ms_cal fails for time ranges with a phase
 center catalog

---
 src/pyuvdata/utils/io/ms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 6c71fff..c2fae5c 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -724,9 +724,11 @@ def write_ms_field(filepath, uvobj=None, phase_center_catalog=None, time_val=Non
 
     if uvobj is not None:
         phase_center_catalog = uvobj.phase_center_catalog
-        time_val = (
-            Time(np.median(uvobj.time_array), format="jd", scale="utc").mjd * 86400.0
-        )
+        time_array = uvobj.time_array
+        if time_array is None:
+            # UVCal objects can have time ranges in place of times
+            time_array = np.mean(uvobj.time_range, axis=1)
+        time_val = Time(np.median(time_array), format="jd", scale="utc").mjd * 86400.0
 
     tabledesc = tables.required_ms_desc("FIELD")
     dminfo = tables.makedminfo(tabledesc)
-- 
2.43.0


From 1be63d516b7423c297bf16c09334cf3b990ccb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 148/160] fix: read_ms_cal drops the extra keywords
 write_ms_cal stores

---
 src/pyuvdata/uvcal/ms_cal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index ca2e412..710a1bd 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -126,6 +126,7 @@ class MSCal(UVCal):
         for keyword in ["CASA_Version", "MSName"]:
             if keyword in main_keywords:
                 self.extra_keywords[keyword] = main_keywords[keyword]
+        self.extra_keywords.update(main_keywords.get("pyuvdata_extra", {}))
 
         # open table with antenna location information
         ant_info = ms_utils.read_ms_antenna(filepath)
-- 
2.43.0


From 2c0e730d2ef8e1315ae5daa148c5b59fe653da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 149/160] fix: refuse an order that is not a permutation in
 UVData.reorder_blts and reorder_pols

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 21056bb..48f2000 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3759,8 +3759,7 @@ class UVData(UVBase):
             if (
                 order.size != self.Npols
                 or order.dtype not in [int, np.int_, np.int32, np.int64]
-                or np.min(order) < 0
-                or np.max(order) >= self.Npols
+                or not np.array_equal(np.sort(order), np.arange(self.Npols))
             ):
                 raise ValueError(
                     "If order is an index array, it must "
@@ -3918,6 +3917,11 @@ class UVData(UVBase):
                     "If order is an index array, it must "
                     "contain integers and be length Nblts."
                 )
+            if not np.array_equal(np.sort(order), np.arange(self.Nblts)):
+                raise ValueError(
+                    "If order is an index array, it must contain every index from 0 "
+                    "to Nblts - 1 exactly once."
+                )
             if minor_order is not None:
                 raise ValueError(
                     "Minor order cannot be set if order is an index array."
-- 
2.43.0


From 88102b9bf03aded21a22203ff37b739e60176972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 150/160] fix: leave a UVCal object as it was when adding in
 place is refused for its phase centers

---
 src/pyuvdata/uvcal/uvcal.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 3436a6e..68cf93e 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2785,9 +2785,23 @@ class UVCal(UVBase):
                             " cannot be combined."
                         )
 
+        if (len(both_times) > 0) and (this.ref_antenna_array is not None):
+            if not np.array_equal(
+                this.ref_antenna_array[this_times_ind],
+                other.ref_antenna_array[other_times_ind],
+            ):
+                raise ValueError(
+                    "Cannot combine objects due to overlapping times with "
+                    "different reference antennas."
+                )
+
         # First, handle the internal source catalogs, since merging them is kind of a
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
         if this.phase_center_catalog is not None:
+            # Keep what is changed below, to restore it if the objects turn out to
+            # be incompatible.
+            initial_catalog = copy.deepcopy(this.phase_center_catalog)
+            initial_ids = copy.deepcopy(this.phase_center_id_array)
             this._consolidate_phase_center_catalogs(
                 other=other, ignore_name=ignore_name
             )
@@ -2798,21 +2812,14 @@ class UVCal(UVBase):
                 ):
                     # TODO: I think this check actually needs to be expanded to other
                     # attributes, and along other axes
+                    this.phase_center_catalog = initial_catalog
+                    this.phase_center_id_array = initial_ids
+                    this.Nphase = len(initial_catalog)
                     raise ValueError(
                         "Cannot combine objects due to overlapping times with "
                         "different phase centers."
                     )
 
-        if (len(both_times) > 0) and (this.ref_antenna_array is not None):
-            if not np.array_equal(
-                this.ref_antenna_array[this_times_ind],
-                other.ref_antenna_array[other_times_ind],
-            ):
-                raise ValueError(
-                    "Cannot combine objects due to overlapping times with "
-                    "different reference antennas."
-                )
-
         # Next, we want to make sure that the ordering of the _overlapping_ data is
         # the same, so that things can get plugged together in a sensible way.
         if len(this_ants_ind) != 0:
-- 
2.43.0


From 7b0b4508795c738a07af0f58a613db5cd85d8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 151/160] fix: discard what the other MirMetaData object has
 flagged, by its own mask, when adding

---
 src/pyuvdata/uvdata/mir_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 36ffec0..5b63126 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2099,7 +2099,7 @@ class MirMetaData(object):
                 if not self._mask[value]:
                     _ = index_dict1.pop(key)
             for key, value in list(index_dict2.items()):
-                if not self._mask[value]:
+                if not other._mask[value]:
                     _ = index_dict2.pop(key)
 
         # See if we have any overlapping keys
-- 
2.43.0


From 83c4d6cb08f0f4e26019ce268b8b6257d3c6de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 152/160] fix: match rows by header key when MirMetaData
 objects with the same, unsorted keys are added

---
 src/pyuvdata/uvdata/mir_meta_data.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 5b63126..ed3b967 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2135,14 +2135,8 @@ class MirMetaData(object):
                 _ = [index_dict1.pop(key) for key in key_overlap]
             else:
                 # Check array index positions for arr1 first, see if all are flagged
-                arr1_idx = (
-                    ... if same_dict else [index_dict1[key] for key in key_overlap]
-                )
-                arr2_idx = (
-                    ... if same_dict else [index_dict2[key] for key in key_overlap]
-                )
-                arr1_mask = self._mask[arr1_idx]
-                arr2_mask = other._mask[arr2_idx]
+                arr1_mask = self._mask[idx1]
+                arr2_mask = other._mask[idx2]
 
                 if (overwrite is None) and not np.any(arr1_mask & arr2_mask):
                     # If at each position at least one object is flagged, then drop the
@@ -2154,7 +2148,7 @@ class MirMetaData(object):
                     # If the previous check fails, we have to do some heavier lifting.
                     # Check all of the entries to see if the values are identical for
                     # the overlapping keys.
-                    comp_mask = self._data[arr1_idx] == other._data[arr2_idx]
+                    comp_mask = self._data[idx1] == other._data[idx2]
 
                     if np.all(comp_mask):
                         # If all values are the same, then we can just delete all the
-- 
2.43.0


From fadde9187cbc43efdc31db574c2bd6090e2f4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 153/160] fix: compare the masks of MirMetaData objects by
 header key, allow for no active rows

---
 src/pyuvdata/uvdata/mir_meta_data.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index ed3b967..e6addb8 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -692,8 +692,12 @@ class MirMetaData(object):
             verbose_print("%s object header key lists are different." % name)
             return False
 
-        this_idx = np.array([self._header_key_index_dict[key] for key in this_keys])
-        other_idx = np.array([other._header_key_index_dict[key] for key in this_keys])
+        this_idx = np.array(
+            [self._header_key_index_dict[key] for key in this_keys], dtype=int
+        )
+        other_idx = np.array(
+            [other._header_key_index_dict[key] for key in this_keys], dtype=int
+        )
 
         # Figure out which fields inside the data array we need to compare.
         comp_fields = list(self.dtype.fields)
@@ -709,7 +713,18 @@ class MirMetaData(object):
         is_eq = True
 
         # Start with the mask comparison first.
-        if comp_mask and not np.array_equal(self._mask, other._mask):
+        if self._header_key_index_dict == other._header_key_index_dict:
+            same_mask = np.array_equal(self._mask, other._mask)
+        else:
+            # The rows may be ordered differently, so match them up by header key.
+            same_mask = {
+                key: self._mask[idx] for key, idx in self._header_key_index_dict.items()
+            } == {
+                key: other._mask[idx]
+                for key, idx in other._header_key_index_dict.items()
+            }
+
+        if comp_mask and not same_mask:
             verbose_print("%s masks are different." % name)
             is_eq = False
 
-- 
2.43.0


From 45b8218742de2acc964e62b66e31b0878df42be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 154/160] fix: return header keys from MirMetaData.group_by for
 pseudo header keys and for a list of keys

---
 src/pyuvdata/uvdata/mir_meta_data.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index e6addb8..3bb4c19 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -1849,9 +1849,17 @@ class MirMetaData(object):
 
         # Otherwise, if we don't want the index array, fill in the header keys now.
         if header_key is not None:
-            index_arr = header_key[index_arr]
+            if isinstance(header_key, np.ndarray):
+                index_arr = header_key[index_arr]
+            else:
+                index_arr = [header_key[idx] for idx in index_arr]
         elif not return_index:
-            index_arr = self.get_header_keys(use_mask=use_mask, where=where)[index_arr]
+            header_keys = self.get_header_keys(use_mask=use_mask, where=where)
+            if isinstance(header_keys, list):
+                # If using pseudo keys, then this is a list of tuples.
+                index_arr = [header_keys[idx] for idx in index_arr]
+            else:
+                index_arr = header_keys[index_arr]
 
         if assume_unique:
             if len(group_fields) == 1:
-- 
2.43.0


From fa1af8fdd0f359ddffb3627135a9e9c724c198e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 155/160] fix: accept a set of values in MirMetaData.where

---
 src/pyuvdata/uvdata/mir_meta_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 3bb4c19..6e42f8f 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -1020,7 +1020,11 @@ class MirMetaData(object):
             "outside": lambda val, lims: ((val < lims[0]) | (val > lims[1])),
         }
 
-        if isinstance(select_val, (list, set, tuple, str, np.ndarray, np.str_)):
+        if isinstance(select_val, set):
+            # numpy would treat the set itself as the one value to compare with.
+            select_val = list(select_val)
+
+        if isinstance(select_val, (list, tuple, str, np.ndarray, np.str_)):
             op_dict["eq"] = lambda val, comp: np.isin(val, comp)
             op_dict["ne"] = lambda val, comp: np.isin(val, comp, invert=True)
 
-- 
2.43.0


From f18eff80e6957f092ea3a3b9b41b0f3a3889fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 156/160] fix: forget changed values when a MirMetaData object
 reads a file

---
 src/pyuvdata/uvdata/mir_meta_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 6e42f8f..86946a6 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2303,6 +2303,7 @@ class MirMetaData(object):
                 self._data = self._data.astype(self.dtype)
 
         self._mask = np.ones(self._size, dtype=bool)
+        self._stored_values = {}
         self._set_header_key_index_dict()
 
     def _writefile(self, filepath=None, *, append_data=False, datamask=...):
@@ -2923,6 +2924,7 @@ class MirAntposData(MirMetaData):
         ).T
 
         self._mask = np.ones(self._size, dtype=bool)
+        self._stored_values = {}
         self._set_header_key_index_dict()
 
     def _writefile(self, filepath=None, *, append_data=False, datamask=...):
@@ -3559,6 +3561,7 @@ class MirAcData(MirMetaData):
         self._data = ac_data
         # Generate a blank (full) mask
         self._mask = np.ones(self._size, dtype=bool)
+        self._stored_values = {}
         # Create header keys
         self._set_header_key_index_dict()
         # Store the int_dict into a special attribute for MirAcRead
-- 
2.43.0


From d2ff4bfa55073d15e972d40753f7ed4c28bf0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 157/160] fix: skip_bad_files skips a file with missing header
 entries

A uvh5 file without one of its header datasets raises an AttributeError,
which read() let through even with skip_bad_files=True.
---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 48f2000..734fd58 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10795,9 +10795,10 @@ class UVData(UVBase):
                         blts_are_rectangular=blts_are_rectangular,
                     )
                     unread = False
-                except KeyError as err:
+                except (AttributeError, KeyError) as err:
                     file_warnings = (
-                        file_warnings + f"Failed to read {f} due to KeyError: {err}\n"
+                        file_warnings
+                        + f"Failed to read {f} due to {type(err).__name__}: {err}\n"
                     )
                     file_num += 1
                     if skip_bad_files is False:
@@ -10927,10 +10928,11 @@ class UVData(UVBase):
                         )
 
                         uv_list.append(uv2)
-                    except KeyError as err:
+                    except (AttributeError, KeyError) as err:
                         file_warnings = (
                             file_warnings
-                            + f"Failed to read {f} due to KeyError: {err}\n"
+                            + f"Failed to read {f} due to {type(err).__name__}: {err}"
+                            "\n"
                         )
                         if skip_bad_files:
                             continue
-- 
2.43.0


From 9438b4c24cc2418c4c691fa4ee13968486550ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 158/160] fix: intersect antenna_nums and bls in read_miriad
 whatever the order of the antennas

Pairs of unsorted antenna numbers were not recognized, and when nothing was
left of the intersection the whole file was read.
---
 src/pyuvdata/uvdata/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 8e020e8..c10fa1d 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -807,7 +807,7 @@ class Miriad(UVData):
                     raise ValueError(err_msg)
                 # get all possible combinations
                 antpairs = list(
-                    itertools.combinations_with_replacement(antenna_nums, 2)
+                    itertools.combinations_with_replacement(sorted(antenna_nums), 2)
                 )
                 # convert antenna numbers to string form required by
                 # aipy_extracts.uv_selector
@@ -862,6 +862,8 @@ class Miriad(UVData):
                     antpair_str_list = list(
                         set(antpair_str_list).intersection(bl_str_list)
                     )
+                    if len(antpair_str_list) == 0:
+                        raise ValueError("No baselines match both antenna_nums and bls")
                 else:
                     antpair_str_list = bl_str_list
 
-- 
2.43.0


From 4973f77716a3c06d2df548ed37d145b236e031fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 159/160] fix: select on times and polarizations for all of
 several baselines in read_miriad

Miriad applies a selection to the last clause of an OR of baselines only, so
other baselines were read with all their times and polarizations.
---
 src/pyuvdata/uvdata/miriad.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index c10fa1d..724771c 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -971,6 +971,15 @@ class Miriad(UVData):
         # dra_list - Stubbing out for later
         # ddec_list - Stubbing out for later
         for (uvw, t, (i, j)), d, f in uv.all_data(raw=True):
+            # Miriad applies the selections on time and polarization only to the last
+            # of several baselines, so check them for each record.
+            if polarizations is not None and uv["pol"] not in polarizations:
+                continue
+            if time_range is not None and not (
+                time_range_use[0] <= t <= time_range_use[1]
+            ):
+                continue
+
             # control for the case of only a single spw not showing up in
             # the dimension
             # Note that the (i, j) tuple is calculated from a baseline number in
-- 
2.43.0


From d22a82c3f121cbcda198439197008c1bfafd3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 160/160] fix: keep the sidereal times of Miriad files between
 0 and 2 pi

Shifting them by half an integration left negative values in the file, or
values above 2 pi in the object read from it.
---
 src/pyuvdata/uvdata/miriad.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 724771c..91c98d7 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1393,9 +1393,10 @@ class Miriad(UVData):
             # formula below adjusts for the fact that in MIRIAD, the lst is for the
             # start of the integration, as opposed to pyuvdata, which evaluates these
             # values at the midpoint of the integration.
-            self.lst_array = lst_list + (
-                np.pi * 1.002737909350795 * self.integration_time / (24.0 * 3600.0)
-            )
+            self.lst_array = (
+                lst_list
+                + np.pi * 1.002737909350795 * self.integration_time / (24.0 * 3600.0)
+            ) % (2 * np.pi)
 
         if projected is None:
             if record_phase_frame:
@@ -1705,9 +1706,10 @@ class Miriad(UVData):
         else:
             # The long float below is the number of sidereal days per day. The below
             # equation should be accurate to _much_ better than 1 µsec.
-            miriad_lsts = self.lst_array - (
-                np.pi * 1.002737909350795 * self.integration_time / (24.0 * 3600.0)
-            )
+            miriad_lsts = (
+                self.lst_array
+                - np.pi * 1.002737909350795 * self.integration_time / (24.0 * 3600.0)
+            ) % (2 * np.pi)
 
         # Miriad requires j>i which we call ant1<ant2
         self.conjugate_bls("ant1<ant2")
-- 
2.43.0

