From 12ab4ff202d8cd9c6bbcba620041e1bbbd34cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 001/113] fix: delta_time assigns steps to the right IDs and
 compares datetime steps

---
 datafold/pcfold/timeseries/collection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a410e66..44a909f 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1051,6 +1051,9 @@ class TSCDataFrame(pd.DataFrame):
             else:
                 n_timeseries = self.n_timeseries
 
+                # IDs in the order of appearance (self.ids are sorted)
+                appearing_ids = id_indexer[::n_timesteps]
+
                 # faster evaluation if all time series have the same number of time steps
                 idx_mask = np.ones(n_timesteps, dtype=bool)
                 idx_mask[-1] = 0
@@ -1062,7 +1065,7 @@ class TSCDataFrame(pd.DataFrame):
 
                 if diff_times.shape[1] == 1:
                     # special case when n_timesteps==2
-                    dt_result_series[:] = diff_times.flatten()
+                    dt_result_series.loc[appearing_ids] = diff_times.flatten()
                 else:
                     # need to check if all values are the same
                     if diff_times.dtype == float:
@@ -1086,13 +1089,17 @@ class TSCDataFrame(pd.DataFrame):
                             else:
                                 result[~equal_dt] = np.timedelta64("NaT")
 
-                    dt_result_series[:] = result.flatten()
+                    dt_result_series.loc[appearing_ids] = result.flatten()
         else:
             for timeseries_id in self.ids:
                 # TODO: this can be potentially faster by using views on the diff_times
                 #  instead of using get indexer for
                 _id_dt = diff_times[id_indexer.get_indexer_for([timeseries_id])[:-1]]
 
+                if len(_id_dt) == 0:
+                    # degenerate time series have no time delta
+                    continue
+
                 if is_timedelta64_dtype(_id_dt) or _id_dt.dtype == int:
                     _is_unique_dt = len(np.unique(np.asarray(_id_dt))) == 1
                 else:
@@ -1105,7 +1112,7 @@ class TSCDataFrame(pd.DataFrame):
 
         if not np.isnan(dt_result_series).all():
             if is_timedelta64_dtype(dt_result_series) or dt_result_series.dtype == int:
-                is_global_unique = len(np.unique(dt_result_series))
+                is_global_unique = len(np.unique(dt_result_series)) == 1
             else:
                 is_global_unique = np.allclose(
                     np.min(dt_result_series), dt_result_series, atol=atol, rtol=rtol
-- 
2.43.0


From 8105775e14f331080095fe6ec012a2918793be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 002/113] fix: const_sampled_time_values must not lose the end
 time by float noise

---
 datafold/pcfold/timeseries/collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 44a909f..57aff17 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1544,10 +1544,11 @@ class TSCDataFrame(pd.DataFrame):
         else:
             # maintain actual time dtype
             _dtype = self.index.get_level_values(self.tsc_time_idx_name).dtype
+            delta_time = self.delta_time
 
-            return np.arange(
-                start, np.nextafter(end, np.finfo(float).max), self.delta_time
-            ).astype(_dtype)
+            # The tolerance (relative to a single step) includes the end time also if there
+            # is numerical noise in the time values.
+            return np.arange(start, end + 1e-6 * delta_time, delta_time).astype(_dtype)
 
     def feature_to_array(
         self, feature: Optional[str] = None, as_frame: bool = False
-- 
2.43.0


From 83c8ed2fe028786cbd6da9b0a1859bb93740c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 003/113] fix: feature_to_array(as_frame) labels rows with the
 IDs in order of appearance

---
 datafold/pcfold/timeseries/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 57aff17..ddb97a7 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1591,7 +1591,10 @@ class TSCDataFrame(pd.DataFrame):
         )
 
         if as_frame:
-            array = pd.DataFrame(array, index=self.ids, columns=self.time_values())
+            # IDs in the order of appearance (self.ids are sorted)
+            ids = self.index.get_level_values(self.tsc_id_idx_name)
+            ids = ids[:: self.n_timesteps]
+            array = pd.DataFrame(array, index=ids, columns=self.time_values())
 
         return array
 
-- 
2.43.0


From 752c83d32e737d9ffcf51ad9c70a63b822cffeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 004/113] fix: select_time_values keeps the sample order and
 accepts unsorted IDs

---
 datafold/pcfold/timeseries/collection.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index ddb97a7..91cb009 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1615,8 +1615,25 @@ class TSCDataFrame(pd.DataFrame):
             a ``pandas.DataFrame``.
 
         """
-        idx = pd.IndexSlice
-        return self.loc[idx[:, time_values], :]
+        if isinstance(time_values, slice):
+            idx = pd.IndexSlice
+            return self.loc[idx[:, time_values], :]
+
+        time_index = self.index.get_level_values(self.tsc_time_idx_name)
+        time_values = np.atleast_1d(time_values)
+
+        if self.is_datetime_index():
+            time_values = pd.DatetimeIndex(time_values)
+        else:
+            time_values = pd.Index(time_values)
+
+        is_available = time_values.isin(time_index)
+        if not is_available.all():
+            raise KeyError(time_values[~is_available])
+
+        # Select with a mask to maintain the sample order (independent of the order in
+        # time_values or of the time series IDs)
+        return self.loc[time_index.isin(time_values), :]
 
     def initial_states(self, n_samples: int = 1) -> "TSCDataFrame":
         """Get initial state of each time series in the collection.
-- 
2.43.0


From a2c10474ac0b7442b306ea944dc64504c3cc4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 005/113] fix: shift_matrices pairs samples of ragged
 collections with unsorted IDs

---
 datafold/pcfold/timeseries/accessor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 62c3862..12edcee 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1242,12 +1242,14 @@ class TSCAccessor:
                     right = np.delete(values.copy(), idx_del_right, axis=0)
 
             elif isinstance(ts_counts, pd.Series):
-                idx = np.append(0, ts_counts.to_numpy()).cumsum()
-                idx_del_left = (idx - 1)[1:]
-                idx_del_right = idx[:-1]
-
-                left = np.delete(values.copy(), idx_del_left, axis=0)
-                right = np.delete(values.copy(), idx_del_right, axis=0)
+                # ts_counts is sorted by ID, which is not necessarily the order in which the
+                # time series appear. Therefore, identify the pairs with the samples' IDs.
+                ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+                ids = ids.to_numpy()
+                is_same_ts = ids[:-1] == ids[1:]
+
+                left = values[:-1][is_same_ts]
+                right = values[1:][is_same_ts]
             else:
                 raise TypeError(
                     f"{type(ts_counts)} is not understood -- please report bug"
-- 
2.43.0


From 90329568fc582286df1016f1d2a525b23a3a873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 006/113] fix: insert_ts does not change the inserted data
 frame

---
 datafold/pcfold/timeseries/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 91cb009..1c755e5 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1471,6 +1471,8 @@ class TSCDataFrame(pd.DataFrame):
                 f"collection with dtype={_index.dtype}."
             )
 
+        df = df.copy(deep=True)  # to not change the index of the inserted data
+
         # Add the ID to the first level of the MultiIndex
         df.index = pd.MultiIndex.from_arrays(
             [np.ones(df.shape[0], dtype=int) * ts_id, _index],
@@ -1478,7 +1480,7 @@ class TSCDataFrame(pd.DataFrame):
         )
 
         # 'self' has to appear first to keep TSCDataFrame type.
-        return pd.concat([self, df.copy(deep=True)], sort=False, axis=0)
+        return pd.concat([self, df], sort=False, axis=0)
 
     def time_interval(
         self, ts_id: Optional[int] = None
-- 
2.43.0


From b1221dbb3423f8740bbfa6534c2970bf8526a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 007/113] fix: TSCDataFrame rejects non-finite time values

---
 datafold/pcfold/timeseries/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 1c755e5..f9333fa 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -890,6 +890,11 @@ class TSCDataFrame(pd.DataFrame):
                 time_index.dtype.kind in "uifM"
             ), f"Numpy dtype.kind={time_index.dtype.kind} not allowed in TSCDataFrame."
 
+        if pd.isnull(time_index).any() or (
+            time_index.dtype.kind == "f" and np.isinf(time_index).any()
+        ):
+            raise AttributeError("Time values have to be finite.")
+
         # u - unsigned integer | i - signed integer | f - floating point
         # do not perform this check for:
         # M - datetime (bc. the second condition raises an error)
-- 
2.43.0


From 2038e0e7f9866bd8701c88141d6007f61d498c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 008/113] fix: TSCDataFrame rejects unsorted time values of
 unsigned integer type

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index f9333fa..20357b6 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -916,9 +916,10 @@ class TSCDataFrame(pd.DataFrame):
         else:
             _time_index_num = time_index.view()
 
+        # NOTE: a comparison (instead of np.diff) is also valid for unsigned integers
         cond_not_sorted = np.logical_and(
             ~np.diff(ids_index).astype(bool),
-            np.diff(_time_index_num) <= 0.0,
+            np.asarray(_time_index_num[1:] <= _time_index_num[:-1]),
         )
 
         if np.any(cond_not_sorted):
-- 
2.43.0


From a52da9c675545d24b46ad8db5516ce06d8507a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 009/113] fix: delta_time detects a longer first time step of
 float time values

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 20357b6..5ade35f 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1076,7 +1076,7 @@ class TSCDataFrame(pd.DataFrame):
                     # need to check if all values are the same
                     if diff_times.dtype == float:
                         result = np.min(diff_times, axis=1)[:, np.newaxis]
-                        abs_diff = np.abs(diff_times[:, 1:] - result)
+                        abs_diff = np.abs(diff_times - result)
 
                         within_atol = np.all(abs_diff < atol, axis=1)
                         within_rtol = np.all(
-- 
2.43.0


From 21ee63d53a64d903c46426f28e221bf12acd0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 010/113] fix: augment_control_input does not assume the first
 ID differs from 1

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 12edcee..55edab6 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1165,7 +1165,7 @@ class TSCAccessor:
 
         X_ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
         mask_all_except_first = np.logical_not(
-            np.diff(X_ids, prepend=True).astype(bool)
+            np.diff(X_ids, prepend=-1).astype(bool)
         )
         mask_all_except_last = np.append(
             np.logical_not((X_ids[:-1] - X_ids[1:]).astype(bool)), False
-- 
2.43.0


From 5f3268d2caae7fcc65cdb1c2c57e00996da7bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 011/113] fix: fill_timeseries_with_last_state keeps the ID and
 the number of attached samples

---
 datafold/pcfold/timeseries/accessor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 55edab6..573dd8a 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1151,9 +1151,12 @@ class TSCAccessor:
         first_time = self._tsc_df.time_values()[-1] + dt
 
         attach_states = np.tile(last_state, (n_attach, 1))
-        attach_time = np.arange(first_time, first_time + n_attach * dt - 1e-15, dt)
+        attach_time = first_time + np.arange(n_attach) * dt
         tsc_attach = TSCDataFrame.from_array(
-            attach_states, time_values=attach_time, feature_names=self._tsc_df.columns
+            attach_states,
+            time_values=attach_time,
+            feature_names=self._tsc_df.columns,
+            ts_id=self._tsc_df.ids[0],
         )
         return pd.concat([self._tsc_df, tsc_attach], axis=0)
 
-- 
2.43.0


From 3a82efa5dfcdadfb3a340d90aeecd89cb75f35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 012/113] fix: drop_last_n_samples accepts zero samples

---
 datafold/pcfold/timeseries/accessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 573dd8a..8a4b6c5 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -698,8 +698,9 @@ class TSCAccessor:
             reduced time series collection
         """
         self.check_required_min_timesteps(n_samples)
-        drop_idx = self._tsc_df.groupby(by="ID").tail(n_samples).index
-        return self._tsc_df.drop(drop_idx)
+        # number of samples that follow in the same time series
+        n_following = self._tsc_df.groupby(by="ID").cumcount(ascending=False)
+        return self._tsc_df.loc[n_following.to_numpy() >= n_samples]
 
     def time_derivative(
         self,
-- 
2.43.0


From 8323255db85352f6e32ff4802f615591d12ba46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 013/113] fix: normalize_time rounds to the nearest time step

---
 datafold/pcfold/timeseries/accessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 8a4b6c5..04f1824 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -670,7 +670,9 @@ class TSCAccessor:
             min_time = min_time.astype(int)
             delta_time = delta_time.astype(int)
 
-        convert_times = np.array((convert_times - min_time) / delta_time, dtype=int)
+        # round because the division of floating points is not exact (and the cast to int
+        # truncates)
+        convert_times = np.round((convert_times - min_time) / delta_time).astype(int)
         convert_times = pd.Index(convert_times, name=TSCDataFrame.tsc_time_idx_name)
 
         new_tsc_index = pd.MultiIndex.from_arrays(
-- 
2.43.0


From 986c11faf345cc486cd49b08539ba7da1439f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 014/113] fix: shift_time_per_time_series shifts by ID

---
 datafold/pcfold/timeseries/accessor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 04f1824..532e1cb 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -588,10 +588,6 @@ class TSCAccessor:
            shifted time series collection and shift_values (optional)
 
         """
-        n_timesteps = self._tsc_df.n_timesteps
-        if isinstance(n_timesteps, pd.Series):
-            n_timesteps = n_timesteps.to_numpy()
-
         if shift_values is None:
             shift_values = self._tsc_df.initial_states(1).index
             shift_values = pd.Series(
@@ -611,7 +607,11 @@ class TSCAccessor:
                 )
 
         if np.any(shift_values != 0):
-            time_shift_expanded = np.repeat(shift_values.to_numpy(), n_timesteps)
+            # the shift values are assigned with the time series ID (note that the time
+            # series do not need to be in the same order)
+            time_shift_expanded = shift_values.loc[
+                self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+            ].to_numpy()
 
             normalized_time_values = (
                 self._tsc_df.index.get_level_values("time") + time_shift_expanded
-- 
2.43.0


From 6bae6e1006357ea5c003c6a62a0cbd5253eb0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 015/113] fix: expand_time_values keeps the IDs in order of
 appearance

---
 datafold/pcfold/timeseries/accessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 532e1cb..fd0ede4 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -550,7 +550,10 @@ class TSCAccessor:
             )
             return TSCDataFrame.from_tensor(
                 tensor=tensor_data,
-                time_series_ids=self._tsc_df.ids,
+                # the IDs in order of appearance (i.e. not sorted)
+                time_series_ids=self._tsc_df.index.get_level_values(
+                    TSCDataFrame.tsc_id_idx_name
+                ).unique(),
                 time_values=new_time_values,
                 feature_names=self._tsc_df.columns,
             )
-- 
2.43.0


From d363084a44cb94cb11a8eb2d5ecf98098fe5b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 016/113] fix: check_equal_delta_time handles collections where
 only one has a common delta time, and datetime

---
 datafold/pcfold/timeseries/accessor.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index fd0ede4..c2e26ac 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -345,19 +345,17 @@ class TSCAccessor:
         Y_dt = Y.delta_time
 
         equal = True
-        if isinstance(X_dt, pd.Series) and not require_const:
-            if not isinstance(Y_dt, pd.Series):
-                equal = False
-            else:
-                try:
-                    pdtest.assert_series_equal(X_dt, Y_dt, atol=atol)
-                except AssertionError:
-                    equal = False
-
-        elif (
+        if require_const and (
             isinstance(X_dt, pd.Series) or isinstance(Y_dt, pd.Series)
-        ) and require_const:
+        ):
             raise TSCException.not_const_delta_time()
+        elif isinstance(X_dt, pd.Series) and isinstance(Y_dt, pd.Series):
+            try:
+                pdtest.assert_series_equal(X_dt, Y_dt, atol=atol)
+            except AssertionError:
+                equal = False
+        elif isinstance(X_dt, pd.Series) or isinstance(Y_dt, pd.Series):
+            equal = False
         else:
             if not cls.equal_const_delta_time(X_dt, Y_dt, atol=atol):
                 equal = False
@@ -388,6 +386,9 @@ class TSCAccessor:
         -------
         bool
         """
+        if isinstance(dt1, np.timedelta64) or isinstance(dt2, np.timedelta64):
+            return bool(dt1 == dt2)  # exact, there is no numerical noise
+
         return np.abs(dt1 - dt2) <= atol
 
     def iter_timevalue_window(
-- 
2.43.0


From 7576336088d341aee53ea315e5c177f21668a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 017/113] fix: check_required_time_delta raises TSCException
 for datetime

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index c2e26ac..25954d9 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -235,7 +235,7 @@ class TSCAccessor:
 
             if self._tsc_df.is_datetime_index():
                 if (delta_times != required_time_delta).any():
-                    raise AttributeError
+                    raise AssertionError
             else:
                 # this is a better variant than
                 # np.asarray(self._tsc_df.delta_time) == np.asarray(required_time_delta)
-- 
2.43.0


From c465a92a6f74cd66130d2fb34b99d4d8785e1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 018/113] fix: is_integer accepts fractions below one and
 non-finite values

---
 datafold/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index a94b387..73c3aa9 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -98,7 +98,7 @@ def is_integer(n: object) -> bool:
 
     """
     return isinstance(n, (int, np.integer)) or (
-        isinstance(n, (float, np.floating)) and n / int(n) == 1.0
+        isinstance(n, (float, np.floating)) and float(n).is_integer()
     )
 
 
-- 
2.43.0


From eed60684a024ea96e31917946155e3527e44fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 019/113] fix: TSCWindowFoldTime skips windows without training
 samples

---
 datafold/pcfold/timeseries/metric.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index a21ae5c..2596cae 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -911,17 +911,17 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
             offset=self.test_window_length + self.test_offset,
             per_time_series=True,
         ):
-            train_tsc = indices_tsc.copy().drop(test_tsc.index, axis=0)
-
             # it is important to reassign the ids to keep the same sub-sampling and
             # assign two IDs, if the test window is somewhere in between
             # a longer time series.
             train_tsc, test_tsc = indices_tsc.copy().tsc.assign_ids_train_test(
-                train_indices=train_tsc.time_values(),
+                train_indices=np.setdiff1d(
+                    np.arange(indices_tsc.shape[0]), test_tsc.time_values()
+                ),
                 test_indices=test_tsc.time_values(),
             )
 
-            if self.minimum_n_timesteps is not None:
+            if self.minimum_n_timesteps is not None and not train_tsc.empty:
                 # see issue #106
                 # https://gitlab.com/datafold-dev/datafold/-/issues/106
                 n_timesteps = train_tsc.n_timesteps
@@ -930,10 +930,10 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
                         train_tsc.n_timesteps < self.minimum_n_timesteps
                     ].index
 
-                    if len(drop_ids) > 0:
-                        train_tsc = train_tsc.drop(
-                            drop_ids if len(drop_ids) > 0 else None, level=0
-                        )
+                    if len(drop_ids) == len(n_timesteps):
+                        train_tsc = pd.DataFrame()
+                    elif len(drop_ids) > 0:
+                        train_tsc = train_tsc.drop(drop_ids, level=0)
                 else:
                     if n_timesteps < self.minimum_n_timesteps:
                         train_tsc = pd.DataFrame()
-- 
2.43.0


From 953c65f2a2194b47e27a7b2ff0f266932b3f43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 020/113] fix: reject empty time series collections with an
 error message

---
 datafold/pcfold/timeseries/collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 5ade35f..6eec098 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -841,6 +841,9 @@ class TSCDataFrame(pd.DataFrame):
                 f"second level for the time values. Got: {index.nlevels=}"
             )
 
+        if len(index) == 0:
+            raise AttributeError("The time series collection must not be empty.")
+
         if index.duplicated().any():
             raise AttributeError(
                 f"Duplicated indices found: {index[index.duplicated()].to_numpy()}"
-- 
2.43.0


From 95518813b51e9aaf3ee2b8698796a224a341ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 021/113] fix: scaling l2_normalize divides each feature by its
 norm (of y_true)

---
 datafold/pcfold/timeseries/metric.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 2596cae..49209b2 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -8,12 +8,24 @@ import numpy as np
 import pandas as pd
 from sklearn import metrics
 from sklearn.model_selection import KFold
-from sklearn.preprocessing import MinMaxScaler, Normalizer, StandardScaler
+from sklearn.preprocessing import MinMaxScaler, StandardScaler
 
 from datafold.pcfold import TSCDataFrame
 from datafold.utils.general import is_df_same_index, is_integer, series_if_applicable
 
 
+class _L2FeatureScaler:
+    """Divides each feature by its Euclidean norm (as set during fit)."""
+
+    def fit_transform(self, X):
+        norm = np.linalg.norm(np.asarray(X), axis=0)
+        self.norm_ = np.where(norm == 0, 1.0, norm)
+        return self.transform(X)
+
+    def transform(self, X):
+        return np.asarray(X) / self.norm_
+
+
 class TSCMetric:
     """Compute metrics for time series collection data.
 
@@ -95,7 +107,7 @@ class TSCMetric:
         elif name == "standard":
             return StandardScaler()
         elif name == "l2_normalize":
-            return Normalizer(norm="l2")
+            return _L2FeatureScaler()
         else:
             raise ValueError(
                 f"scaling={name} is not known. Choose from {self._cls_valid_scaling}"
-- 
2.43.0


From 61334f1038ade4a90bd6297606a9eafa859aebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 022/113] fix: l2 and linf metric respect user defined feature
 weights

---
 datafold/pcfold/timeseries/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 49209b2..041a02a 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -142,7 +142,9 @@ class TSCMetric:
 
         norm = np.linalg.norm(diff, ord=order, axis=0)
 
-        if multioutput == "uniform_average":
+        if isinstance(multioutput, np.ndarray):
+            norm = np.average(norm, weights=multioutput)
+        elif multioutput == "uniform_average":
             norm = np.mean(norm)
 
         return norm
-- 
2.43.0


From 3b62552ee0ec1581c36583de37d4823c502d5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 023/113] fix: apply the control input in controlled
 differential systems (matrix and control affine)

---
 datafold/dynfold/dynsystem.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index b0f6335..2ac0f67 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -56,24 +56,28 @@ class SystemSolveStrategy:
         r"""Solves system:
         \dot{x} = A x + B u.
         """
-        time_series_tensor[:, 0, :] = initial_conditions
-        time_diff = np.diff(time_values)
+        time_series_tensor[:, 0, :] = np.real(initial_conditions).T
 
         n_states = sys_matrix.shape[0]
         n_inputs = control_matrix.shape[1]
 
-        for idx, tdiff in enumerate(time_diff):
-            M = np.vstack(
-                [np.hstack([sys_matrix * tdiff]), control_matrix * tdiff],
+        # zero-order hold: the control input is constant within each time step
+        block_matrix = np.vstack(
+            [
+                np.hstack([sys_matrix, control_matrix]),
                 np.zeros([n_inputs, n_states + n_inputs]),
-            )
-            expM = np.linalg.expm(M)
+            ]
+        )
+
+        for idx, tdiff in enumerate(np.diff(time_values)):
+            expM = scipy.linalg.expm(block_matrix * tdiff)
             Ad = expM[:n_states, :n_states]
-            Bd = expM[n_states:, :n_states]
+            Bd = expM[:n_states, n_states:]
 
-            time_series_tensor[:, idx + 1, :] = (
-                Ad @ time_series_tensor[:, idx, :] + Bd @ control_input[:, idx, :]
+            next_state = (
+                Ad @ time_series_tensor[:, idx, :].T + Bd @ control_input[:, idx, :].T
             )
+            time_series_tensor[:, idx + 1, :] = np.real(next_state).T
 
         return time_series_tensor
 
@@ -350,9 +354,12 @@ class SystemSolveStrategy:
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-            system_type == "differential" and system_mode == "matrix" and is_controlled
+            system_type == "differential"
+            and system_mode == "matrix"
+            and is_controlled
+            and not is_control_affine
         ):
-            return SystemSolveStrategy.differential_matrix
+            return SystemSolveStrategy.differential_matrix_controlled
         elif (
             system_type == "flowmap" and system_mode == "spectral" and not is_controlled
         ):
-- 
2.43.0


From 8b930617e4be15744b9917f5f7cfcd789663ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 024/113] fix: consistent feature names of finite differences
 and named check of the spacing

---
 datafold/dynfold/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index de37184..13f7a43 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1589,7 +1589,7 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
     def get_feature_names_out(self, input_features=None):
         if input_features is None:
             input_features = self.feature_names_in_
-        return [f"{col}_dot" for col in input_features]
+        return [f"{col}_dot{self.diff_order}" for col in input_features]
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "TSCFiniteDifference":
         """Set and validate time spacing between samples.
@@ -1644,9 +1644,10 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
         else:
             check_scalar(
                 x=self.spacing,
+                name="spacing",
                 target_type=(float, int),
                 min_val=0,
-                include_boundaries="right",
+                include_boundaries="neither",
             )
             self.spacing_ = self.spacing
 
-- 
2.43.0


From 7d3e808283dc8f0f20e08b77f668c980e63614eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 025/113] fix: order of lambda feature names

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 13f7a43..bacf7b6 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1469,8 +1469,8 @@ class TSCApplyLambdas(BaseEstimator, TSCTransformerMixin):
         return np.array(
             [
                 f"{feature_name}_lambda{i}"
-                for feature_name in feature_names_in
                 for i in range(len(self.lambdas))
+                for feature_name in feature_names_in
             ]
         )
 
-- 
2.43.0


From 20785f81958a3f2d46ce22d86d60b17f53db08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 026/113] fix: moving average rejects series shorter than the
 window

---
 datafold/dynfold/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index bacf7b6..cc7b657 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1031,7 +1031,9 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
             X,
             ensure_tsc=True,
             ensure_min_samples=self.window,
-            tsc_kwargs=dict(ensure_const_delta_time=True),
+            tsc_kwargs=dict(
+                ensure_const_delta_time=True, ensure_min_timesteps=self.window
+            ),
         )
         self._setup_feature_attrs_fit(X, n_features_out=len(X.columns))
 
@@ -1055,7 +1057,9 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
             X,
             ensure_tsc=True,
             ensure_min_samples=self.window,
-            tsc_kwargs=dict(ensure_const_delta_time=True),
+            tsc_kwargs=dict(
+                ensure_const_delta_time=True, ensure_min_timesteps=self.window
+            ),
         )
         self._validate_feature_input(X, direction="transform")
 
-- 
2.43.0


From 1c19f596cc6b39703afc2df4cf300ef01bd234f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 027/113] fix: polynomial features of numpy arrays

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index cc7b657..fc84a6a 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1426,7 +1426,7 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
             X,
             values=poly_data,
             feature_names=self.get_feature_names_out(
-                input_features=self.feature_names_in_
+                input_features=getattr(self, "feature_names_in_", None)
             ),
         )
 
-- 
2.43.0


From aebb41b55eaf18c3f290722a43d5a366302c5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 028/113] fix: Fourier features can be fitted

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index fc84a6a..5399738 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -952,7 +952,7 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
     def fit(self, X, y=None, **fit_params):
         self._setup_feature_attrs_fit(X, n_features_out=2 * self.n_features)
 
-        self._read_fit_params(None, **fit_params)
+        self._read_fit_params(attrs=None, fit_params=fit_params)
 
         # sample features components
         self.fourier_components_ = np.zeros([X.shape[1], self.n_features])
-- 
2.43.0


From 5133c2b170a92bd14399ec2ace2aa9e1095ec807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 029/113] fix: keep the order of the time series in Takens
 embedding, moving average and column transformer

---
 datafold/dynfold/compose.py   | 2 +-
 datafold/dynfold/transform.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/compose.py b/datafold/dynfold/compose.py
index 5cd922e..4d01997 100644
--- a/datafold/dynfold/compose.py
+++ b/datafold/dynfold/compose.py
@@ -75,7 +75,7 @@ class TSCColumnTransformer(compose.ColumnTransformer, TSCTransformerMixin):
 
         # dropna(axis=0) removes all rows that were dropped during transform
         # (i.e. transformations that require multiple timesteps).
-        Xs = pd.concat(Xs, axis=1, sort=True, ignore_index=True).dropna(axis=0)
+        Xs = pd.concat(Xs, axis=1, join="inner", ignore_index=True).dropna(axis=0)
         Xs.columns = pd.Index(self.get_feature_names_out())
         return Xs
 
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 5399738..70fcdf1 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -797,7 +797,9 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         else:
             kappa_vec = None
 
-        for idx, (_, df) in enumerate(X.groupby(TSCDataFrame.tsc_id_idx_name)):
+        for idx, (_, df) in enumerate(
+            X.groupby(TSCDataFrame.tsc_id_idx_name, sort=False)
+        ):
             # use time series numpy block
             time_series_numpy = df.to_numpy()
 
@@ -1065,7 +1067,7 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
 
         X_new = (
             pd.DataFrame(X)
-            .groupby(TSCDataFrame.tsc_id_idx_name)
+            .groupby(TSCDataFrame.tsc_id_idx_name, sort=False)
             .rolling(window=self.window)
             .mean()
             .dropna()
-- 
2.43.0


From cff389851ee2c9e1b66eff881463228354c845f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 030/113] fix: Takens embedding does not rename the columns of
 its input

---
 datafold/dynfold/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 70fcdf1..8e89117 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -620,6 +620,7 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         # in case the column in not string it is important to transform it here to
         # string. Otherwise, There are mixed types (e.g. int and str), because the
         # delayed columns are all strings to indicate the delay number.
+        X = X.copy(deep=False)  # do not change the feature names of the user's object
         X.columns = X.columns.astype(np.str_)
         return X
 
-- 
2.43.0


From 44554af997163b2708c08b07ce6418c9c402c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 031/113] fix: incremental PCA does not overwrite the training
 data by default

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 8e89117..bbf6db7 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -376,7 +376,7 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
 class TSCIncrementalPCA(IncrementalPCA, TSCTransformerMixin):  # pragma: no cover
     # TODO: docu, tests
 
-    def __init__(self, n_components, *, whiten=False, copy=False, batch_size=None):
+    def __init__(self, n_components, *, whiten=False, copy=True, batch_size=None):
         super().__init__(
             n_components=n_components, whiten=whiten, copy=copy, batch_size=batch_size
         )
-- 
2.43.0


From c73b406f233a7f955db57f8482284c80ca68c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 032/113] fix: restore the feature names in
 TSCIdentity.inverse_transform and avoid mixed column types

---
 datafold/dynfold/transform.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index bbf6db7..0a62a27 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -338,6 +338,9 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
                 X = X.add_suffix("_id")
 
             if self.include_const:
+                if not self.rename_features:
+                    # the feature names need to have the same type as "const"
+                    X.columns = X.columns.astype(np.str_)
                 X["const"] = 1
         else:
             if self.include_const:
@@ -363,12 +366,15 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         X = self._validate_datafold_data(X)
         self._validate_feature_input(X, direction="inverse_transform")
 
-        if self.include_const:
+        if self._has_feature_names(X):
             X = X.copy(deep=True)
-            if self._has_feature_names(X):
+
+            if self.include_const:
                 X = X.drop("const", axis=1)
-            else:
-                X = X[:, :-1]
+
+            X.columns = pd.Index(self.feature_names_in_, name=X.columns.name)
+        elif self.include_const:
+            X = X[:, :-1]
 
         return X
 
-- 
2.43.0


From 2028156448421368a4b5e0618c6b2edd917c20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 033/113] fix: select features by name

---
 datafold/dynfold/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 0a62a27..dac929c 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -192,9 +192,9 @@ class TSCFeatureSelect(BaseEstimator, TSCTransformerMixin):
         self.features = features
 
     def get_feature_names_out(self, input_features=None):
-        if self.features.dtype == np.str_:
+        if self.features.dtype.kind in "UO":
             return self.features
-        elif self.features.dtype == np.int_:
+        elif self.features.dtype.kind in "iu":
             return self.feature_names_in_[self.features]
         else:
             raise ValueError(f"{self.features.dtype=} is not supported")
-- 
2.43.0


From 2a0702acff95f40e0728e9af5a2a5da1d48b7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 034/113] fix: feature names of scaled data with integer names
 and inverse for numpy arrays

---
 datafold/dynfold/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index dac929c..9272d21 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -65,6 +65,10 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
             )
 
     def get_feature_names_out(self, input_features=None):
+        if input_features is None:
+            # also covers feature names that are not of type str (ignored in scikit-learn)
+            input_features = getattr(self, "feature_names_in_", None)
+
         return self.sklearn_transformer_fit_.get_feature_names_out(
             input_features=input_features
         )
@@ -174,7 +178,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
 
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
-            X=X, values=values, feature_names=self.feature_names_in_
+            X=X,
+            values=values,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
-- 
2.43.0


From d08bfdcddf3a4f891c75ae9bd7d80173a75e6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 035/113] fix: control input in another order of time series
 than the initial conditions is rejected

---
 datafold/pcfold/timeseries/collection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 6eec098..907d38c 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1999,7 +1999,11 @@ class InitialCondition:
 
     @classmethod
     def validate_control(cls, X_ic: TSCDataFrame, U: TSCDataFrame):
-        X_ic.tsc.check_contain_required_ids(required_ids=U.ids, check_order=True)
+        # note that the attribute "ids" is sorted and therefore does not provide the order
+        X_ic.tsc.check_contain_required_ids(
+            required_ids=U.index.unique(level=TSCDataFrame.tsc_id_idx_name),
+            check_order=True,
+        )
         U.tsc.check_equal_timevalues()
 
         last_state_time = X_ic.final_states(1).time_values()[0]
-- 
2.43.0


From 008a8b5eb8fc3d9e8dc20a4cb7a115c9e2b592ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 036/113] fix: matrix mode systems can be fitted again

---
 datafold/dynfold/dynsystem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 2ac0f67..8f1d46a 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -859,8 +859,10 @@ class LinearDynamicalSystem:
         LinearDynamicalSystem
             self
         """
-        if self.is_linear_system_setup():
-            raise RuntimeError("Linear system is already setup.")
+        if not self.is_matrix_mode:
+            raise RuntimeError(
+                f"With '{self.sys_mode=}' this function is not supported."
+            )
 
         is_matrix(system_matrix, "system_matrix")
         self.sys_matrix_ = system_matrix
-- 
2.43.0


From 7d274951a2e444bdc7f1095875f8022eb5b18e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 037/113] fix: use a single time resolution for datetime values

---
 datafold/dynfold/dynsystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 8f1d46a..7ee06db 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -571,6 +571,8 @@ class LinearDynamicalSystem:
             )
 
         if is_timedelta64_dtype(time_values) or is_datetime64_dtype(time_values):
+            # use a single resolution (see also "_check_time_delta")
+            time_values = time_values.astype(f"{time_values.dtype.kind}8[ns]")
             time_values = time_values.astype(np.int64)
 
         return time_values
@@ -589,6 +591,9 @@ class LinearDynamicalSystem:
             # cast to built-in Python value
             np_time_delta = np.asarray(time_delta)
 
+            if np_time_delta.dtype.kind == "m":
+                np_time_delta = np_time_delta.astype("timedelta64[ns]")
+
             if np_time_delta.dtype.kind in "mi":
                 # Note: it looks over-complicated but this is works for both timedelta and
                 #       signed int
-- 
2.43.0


From 171513c28fba7c1bd92b164c34507d70941ddd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 038/113] fix: gDMDAffine selects the samples by ID and time

---
 datafold/dynfold/dmd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dcd9ce4..25a2611 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1801,9 +1801,8 @@ class gDMDAffine(DMDBase):
             scheme=self.diff_scheme, accuracy=self.diff_accuracy
         )
         # trim samples where derivative is unknown
-        # TODO: improve this by using pandas' indexing state and control_inp
-        X = state.select_time_values(Xdot_tsc.time_values()).to_numpy()
-        U = control_inp.select_time_values(Xdot_tsc.time_values()).to_numpy()
+        X = state.loc[Xdot_tsc.index, :].to_numpy()
+        U = control_inp.loc[Xdot_tsc.index, :].to_numpy()
         Xdot = Xdot_tsc.to_numpy()
 
         n_snapshots = X.shape[0]
-- 
2.43.0


From 0bca1d8e24af9da23ba8528fade16d75d237b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 039/113] fix: pseudospectrum without residual filter and its
 error message

---
 datafold/dynfold/dmd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 25a2611..4537e0d 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -798,7 +798,7 @@ class DMDStandard(DMDBase):
                 sample_weights, shift_end_transposed
             )
 
-        if self.residual_filter is not None:
+        if self.residual_filter is not None or self.compute_pseudospectrum:
             if sample_weights is None:
                 _shiftYTY = shift_end_transposed.T @ shift_end_transposed
                 R = np.multiply(1 / X.shape[0], _shiftYTY, out=_shiftYTY)
@@ -836,7 +836,7 @@ class DMDStandard(DMDBase):
                 stacklevel=2,
             )
 
-        if self.residual_filter is None:
+        if self.residual_filter is None and not self.compute_pseudospectrum:
             # free memory and to make sure that they are not used again
             G, G_dash, R = [None] * 3
 
@@ -1043,9 +1043,8 @@ class DMDStandard(DMDBase):
         """
         if not self.compute_pseudospectrum:
             raise ValueError(
-                "Calculating the pseudospectrum requires fitting"
-                f"self.compute_pesudospectrum=True (got {self.compute_pesudospectrum=}) and"
-                f"res_threshold is not None (got {self.residual_filter=}."
+                "Calculating the pseudospectrum requires fitting with"
+                f" self.compute_pseudospectrum=True (got {self.compute_pseudospectrum=})."
             )
 
         import warnings
-- 
2.43.0


From 1731de62b88d86f39a0cc13624239cf319a65647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 040/113] fix: score is available for all DMD models

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 4537e0d..c5b936b 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -530,6 +530,7 @@ class PretrainedDMD(DMDBase):
         sys_type: Literal["flowmap", "differential"],
         sys_mode: Literal["spectral", "matrix"],
     ):
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type=sys_type, sys_mode=sys_mode)
 
     @classmethod
@@ -1606,6 +1607,7 @@ class DMDControl(DMDBase):
         **kwargs,
     ):
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="flowmap",
             sys_mode=sys_mode,
@@ -1784,6 +1786,7 @@ class gDMDAffine(DMDBase):
         self.diff_scheme = diff_scheme
         self.diff_accuracy = diff_accuracy
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="differential",
             sys_mode="matrix",
@@ -2092,6 +2095,7 @@ class StreamingDMD(DMDBase):
         self.max_rank = max_rank
         self.ngram = ngram
         self.incr_basis_tol = incr_basis_tol
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _gram_schmidt(self, xm, xp):
@@ -2431,6 +2435,7 @@ class OnlineDMD(DMDBase):
         self.weighting = weighting
         self.is_diagonalize = is_diagonalize
         self.with_warm_up = with_warm_up
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _validate_parameters(self):
-- 
2.43.0


From 75f2b68667890291a12bddbe88ed38a3a35c9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 041/113] fix: left eigenvectors of singular system matrices

---
 datafold/dynfold/dmd.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index c5b936b..debb92f 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -41,9 +41,7 @@ def compute_spectral_components(system_matrix, is_diagonalize):
         #     The left eigenvectors are
         #          * not normed
         #          * row-wise in returned matrix
-        eigenvectors_left = np.linalg.solve(
-            mat_dot_diagmat(eigenvectors_right, eigenvalues), system_matrix
-        )
+        eigenvectors_left = np.linalg.inv(eigenvectors_right)
     else:
         eigenvectors_left = None
 
@@ -985,8 +983,7 @@ class DMDStandard(DMDBase):
              * row-wise in returned matrix
 
         """
-        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
-        return np.linalg.solve(lhs_matrix, system_matrix)
+        return np.linalg.inv(eigenvectors_right)
 
     def _compute_spectral_components(self, system_matrix, reconstruct):
         eigenvalues_, eigenvectors_right_ = sort_eigenpairs(
-- 
2.43.0


From 1af09c271aded757b5ca7789907cd235015b3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 042/113] fix: residual filter keeps the user parameter and is
 robust against numerical noise

---
 datafold/dynfold/dmd.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index debb92f..1cc3263 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -866,7 +866,7 @@ class DMDStandard(DMDBase):
         )  # (1.20)
 
         G = shift_start @ shift_start.T
-        G_dash = shift_end @ shift_start.T
+        G_dash = shift_start @ shift_end.T
         R = shift_end @ shift_end.T
 
         reconstruct = dict(V=V, S_inverse=S_inverse, U=U, shift_end=shift_end)
@@ -894,24 +894,29 @@ class DMDStandard(DMDBase):
             denom = np.real(eigvec_conj @ G @ eigvec)
 
             if np.abs(denom) > 1e-15:
-                res_squared[i] = (np.real(eigvec_conj @ num @ eigvec)) / denom[0]
+                # numerical noise can lead to (slightly) negative values
+                res_squared[i] = max(
+                    np.real(eigvec_conj @ num @ eigvec).item() / denom.item(), 0.0
+                )
 
         residuals = np.sqrt(res_squared, out=res_squared)
 
         if isinstance(self.residual_filter, (float, int)):
-            self.residual_filter = dict(threshold=self.residual_filter)
-        elif not isinstance(self.residual_filter, dict):
+            residual_filter = dict(threshold=self.residual_filter)
+        elif isinstance(self.residual_filter, dict):
+            residual_filter = self.residual_filter
+        else:
             raise TypeError("residual_filter must be a float, int or dict.")
 
         # TODO: there is currently no validation if the user sets a wrong value
-        if self.residual_filter.get("threshold", False):
-            mask_keep = residuals <= self.residual_filter["threshold"]
-        elif self.residual_filter.get("quantile", False):
+        if residual_filter.get("threshold", False):
+            mask_keep = residuals <= residual_filter["threshold"]
+        elif residual_filter.get("quantile", False):
             mask_keep = residuals <= np.quantile(
-                residuals, self.residual_filter["quantile"]
+                residuals, residual_filter["quantile"]
             )
-        elif self.residual_filter.get("keep_n", False):
-            value = self.residual_filter["keep_n"]
+        elif residual_filter.get("keep_n", False):
+            value = residual_filter["keep_n"]
             res_n = np.partition(residuals, value - 1)[value - 1]
             mask_keep = residuals <= res_n
         else:
@@ -920,7 +925,7 @@ class DMDStandard(DMDBase):
                 "'quantile' or 'keep_n' must be available"
             )
 
-        if self.residual_filter.get("store_residuals", False):
+        if residual_filter.get("store_residuals", False):
             self.residuals_ = residuals
             self.residuals_mask_keep_ = mask_keep
 
@@ -947,7 +952,7 @@ class DMDStandard(DMDBase):
         if eigenvectors_left is not None:
             eigenvectors_left = eigenvectors_left[mask_keep, :]
 
-        if self.residual_filter.get("sort", False):
+        if residual_filter.get("sort", False):
             sortidx = np.argsort(residuals[mask_keep])  # from low to high
             eigenvalues = eigenvalues[sortidx]
             eigenvectors_right = eigenvectors_right[:, sortidx]
-- 
2.43.0


From 8ac3bd4f20615f124406458a21d0556587a49413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 043/113] fix: reconstruct keeps the order of the time series

---
 datafold/dynfold/base.py | 5 ++++-
 datafold/dynfold/dmd.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index bcc869e..5c459ff 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -815,4 +815,7 @@ class TSCPredictMixin(TSCBase):
             )
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        # same order of time series as in X
+        return pd.concat(X_reconstruct_ts, axis=0).loc[
+            X.index.unique(level=TSCDataFrame.tsc_id_idx_name), :
+        ]
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 1cc3263..60b6b47 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -462,7 +462,10 @@ class DMDBase(
             )
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        # same order of time series as in X
+        return pd.concat(X_reconstruct_ts, axis=0).loc[
+            X.index.unique(level=TSCDataFrame.tsc_id_idx_name), :
+        ]
 
     def fit_predict(
         self, X: TSCDataFrame, *, U: Optional[TSCDataFrame] = None, y=None, **fit_params
-- 
2.43.0


From c7c1957d39e61556b3d0fff552c11d2a4e516134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 044/113] fix: DMDControl.predict with control input in a numpy
 array

---
 datafold/dynfold/dmd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 60b6b47..5be2366 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -373,11 +373,17 @@ class DMDBase(
                         f"Got {X.n_timeseries}"
                     )
 
+                requires_last_state = getattr(
+                    self, "_requires_last_control_state", False
+                )
+
                 U = InitialCondition.from_array_control(
                     U,
                     control_names=self.control_names_in_,
                     dt=self.dt_,
-                    time_values=time_values,
+                    time_values=time_values
+                    if requires_last_state
+                    else time_values[:-1],
                     ts_id=int(X.ids[0]) if isinstance(X, TSCDataFrame) else None,
                 )
                 # TODO: include pd.DataFrame type (turn to TSCDataFrame)
-- 
2.43.0


From a5767438beba69d8be6053fd8e504b96fca8c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 045/113] fix: StreamingDMD.predict accepts arrays and default
 time values

---
 datafold/dynfold/dmd.py | 55 -----------------------------------------
 1 file changed, 55 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 5be2366..f8d632f 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2331,61 +2331,6 @@ class StreamingDMD(DMDBase):
 
         return self
 
-    def predict(
-        self,
-        X: TimePredictType,
-        *,
-        U=None,
-        time_values=None,
-        **predict_params,
-    ):
-        """Predict time series data for each initial condition and time values.
-
-        Parameters
-        ----------
-        X: TSCDataFrame, numpy.ndarray
-            Initial conditions of shape `(n_initial_condition, n_features)`.
-
-        time_values
-            Time values to evaluate the model at. If not provided, then predict a single step
-            from initial condition plus time in ``dt_``.
-
-        Returns
-        -------
-        TSCDataFrame
-            The computed time series predictions, where each time series has shape
-            `(n_time_values, n_features)`.
-        """
-        check_is_fitted(self)
-        X, _, time_values = self._validate_features_and_time_values(
-            X, U=None, time_values=time_values
-        )
-
-        post_map, user_set_modes, feature_columns = self._read_predict_params(
-            predict_params=predict_params
-        )
-
-        user_sys_matrix = self._read_user_sys_matrix(
-            post_map=post_map, user_set_modes=user_set_modes
-        )
-
-        if user_sys_matrix is None:
-            system_matrix = self.eigenvectors_right_
-            _feat_names = self.feature_names_in_
-        else:
-            system_matrix = user_sys_matrix
-            _feat_names = feature_columns
-
-        X_predict = self._evolve_dmd_system(
-            X_ic=X,
-            overwrite_sys_matrix=system_matrix,
-            control_input=None,
-            time_values=time_values,
-            feature_columns=_feat_names,
-        )
-
-        return X_predict
-
 
 class OnlineDMD(DMDBase):
     r"""Online dynamic mode decomposition on time-varying system data.
-- 
2.43.0


From 3639081ccc747a6d0d43910f75248336efe280fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 046/113] fix: StreamingDMD.partial_fit with exactly two
 initial samples

---
 datafold/dynfold/dmd.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f8d632f..5856918 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2243,7 +2243,8 @@ class StreamingDMD(DMDBase):
         return self
 
     def _separate_init_pairs(self, X: TSCDataFrame):
-        X_init_fit, X_other = X.iloc[0:2, :], X.iloc[2:, :]
+        X_init_fit = X.iloc[0:2, :]
+        X_other = X.iloc[2:, :] if X.shape[0] > 2 else None
         X_init_fit.tsc.check_tsc(ensure_n_timeseries=1)
 
         if X.has_degenerate():
@@ -2300,24 +2301,23 @@ class StreamingDMD(DMDBase):
             X_init_fit, X = self._separate_init_pairs(X)
             self.fit(X_init_fit)
 
-            if X.empty:
-                return self
         else:
             self._validate_feature_names(X)
             self._validate_delta_time(X.delta_time)
 
-        self._validate_datafold_data(X, ensure_tsc=True, ensure_min_samples=2)
+        if X is not None:
+            self._validate_datafold_data(X, ensure_tsc=True, ensure_min_samples=2)
 
-        (
-            Xm,
-            Xp,
-        ) = X.tsc.shift_matrices(snapshot_orientation="row")
+            (
+                Xm,
+                Xp,
+            ) = X.tsc.shift_matrices(snapshot_orientation="row")
 
-        norm_m = np.linalg.norm(Xm, axis=1)
-        norm_p = np.linalg.norm(Xp, axis=1)
+            norm_m = np.linalg.norm(Xm, axis=1)
+            norm_p = np.linalg.norm(Xp, axis=1)
 
-        for i in range(Xm.shape[0]):
-            self._update(Xm[i, :], Xp[i, :], norm_m[i], norm_p[i])
+            for i in range(Xm.shape[0]):
+                self._update(Xm[i, :], Xp[i, :], norm_m[i], norm_p[i])
 
         # required to perform predictions
         (
-- 
2.43.0


From 372c0d4ec5d3d6c87db98ec4c49aba7fbdc3eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 047/113] fix: StreamingDMD compression keeps the directions
 with the largest energy

---
 datafold/dynfold/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 5856918..27ef103 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2173,21 +2173,21 @@ class StreamingDMD(DMDBase):
         # check if compression is needed
         if self.max_rank is not None:
             if n_qx > self.max_rank:
-                evals, evecs = np.linalg.eig(self._Gx)
+                evals, evecs = np.linalg.eigh(self._Gx)
                 idx = np.argsort(evals)
 
                 # indices of largest eigenvalues
-                idx = idx[: self.max_rank]
+                idx = idx[::-1][: self.max_rank]
 
                 self._Qx = self._Qx @ evecs[:, idx]
                 self.A = self.A @ evecs[:, idx]
                 self._Gx = np.diag(evals[idx])
             if n_qy > self.max_rank:
-                evals, evecs = np.linalg.eig(self._Gy)
+                evals, evecs = np.linalg.eigh(self._Gy)
                 idx = np.argsort(evals)
 
                 # indices of largest eigenvalues
-                idx = idx[: self.max_rank]
+                idx = idx[::-1][: self.max_rank]
 
                 self._Qy = self._Qy @ evecs[:, idx]
                 self.A = evecs[:, idx].T @ self.A
-- 
2.43.0


From 65009609dfa92cfd73b5c738fdd9c0732012a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 048/113] fix: OnlineDMD with is_diagonalize=True

---
 datafold/dynfold/dmd.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 27ef103..fcc9048 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -185,6 +185,21 @@ class DMDBase(
         """
         raise NotImplementedError("base class")
 
+    def _compute_left_eigenvectors(
+        self, system_matrix, eigenvalues, eigenvectors_right
+    ):
+        """Compute left eigenvectors such that
+        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
+
+        .. note::
+             The eigenvectors are
+
+             * not normed
+             * row-wise in returned matrix
+
+        """
+        return np.linalg.inv(eigenvectors_right)
+
     def _read_user_sys_matrix(self, post_map, user_set_modes):
         assert not (post_map is not None and user_set_modes is not None)
 
@@ -984,21 +999,6 @@ class DMDStandard(DMDBase):
         #     (None if eigenvectors_left is None else np.vstack(new_lvecs)),
         # )
 
-    def _compute_left_eigenvectors(
-        self, system_matrix, eigenvalues, eigenvectors_right
-    ):
-        """Compute left eigenvectors such that
-        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
-
-        .. note::
-             The eigenvectors are
-
-             * not normed
-             * row-wise in returned matrix
-
-        """
-        return np.linalg.inv(eigenvectors_right)
-
     def _compute_spectral_components(self, system_matrix, reconstruct):
         eigenvalues_, eigenvectors_right_ = sort_eigenpairs(
             *np.linalg.eig(system_matrix)
-- 
2.43.0


From 38615b2fa4334426215c9945010d575eb3349673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 049/113] fix: control input with another sampling rate is
 rejected, reconstruct passes the time values

---
 datafold/dynfold/dmd.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index fcc9048..73055a6 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -13,6 +13,7 @@ from datafold._decorators import warn_experimental_class, warn_experimental_func
 from datafold.dynfold.base import InitialConditionType, TimePredictType, TSCPredictMixin
 from datafold.dynfold.dynsystem import LinearDynamicalSystem
 from datafold.pcfold import InitialCondition, TSCDataFrame
+from datafold.pcfold.timeseries.collection import TSCException
 from datafold.utils.general import (
     diagmat_dot_mat,
     if1dim_colvec,
@@ -409,6 +410,14 @@ class DMDBase(
 
             InitialCondition.validate_control(X_ic=X, U=U)
 
+            # a flowmap system advances exactly one time step per control state
+            if self.is_flowmap_system and not np.allclose(
+                np.diff(U.time_values()) / self.dt_, 1.0, rtol=1e-6, atol=0
+            ):
+                raise TSCException.not_required_delta_time(
+                    required_delta_time=self.dt_, actual_delta_time=U.delta_time
+                )
+
         X, U, time_values = self._validate_features_and_time_values(
             X=X, U=U, time_values=time_values
         )
@@ -477,10 +486,7 @@ class DMDBase(
             else:
                 U_ic = None
 
-            # use time_values from U_ic if available, else set time_values
-            X_ts = self.predict(
-                X=X_ic, U=U_ic, time_values=time_values if U is None else None
-            )
+            X_ts = self.predict(X=X_ic, U=U_ic, time_values=time_values)
             X_reconstruct_ts.append(X_ts)
 
         # same order of time series as in X
-- 
2.43.0


From e7019e147034db3cc061df7cb3cb39b5a3cfc371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 050/113] fix: time values of predictions with control input

---
 datafold/dynfold/base.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 5c459ff..fb1a0ea 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -481,7 +481,7 @@ class TSCPredictMixin(TSCBase):
             # Series if dt_ is not the same for all time series in the data.
             raise NotImplementedError(
                 "Currently, all algorithms assume a constant time "
-                f"delta. Got {X.time_delta=}."
+                f"delta. Got {X.delta_time=}."
             )
 
         # TODO: check this closer why are there 5 decimals required?
@@ -538,7 +538,8 @@ class TSCPredictMixin(TSCBase):
             # no tol required for interger and interger-based datetime
             _numerical_tol = 0
         else:
-            _numerical_tol = 1e-14
+            # the noise grows with the time values, but stays well below the sampling rate
+            _numerical_tol = max(1e-14, 1e-6 * dt)
 
         if time_values is None:
             if is_controlled:
@@ -566,14 +567,10 @@ class TSCPredictMixin(TSCBase):
                         )
 
                 else:
-                    time_values = np.arange(
-                        reference,
-                        reference
-                        + _numerical_tol
-                        + (U.shape[0] + int(not req_last_control_state))  # type: ignore
-                        * dt,
-                        dt,
-                    )
+                    # do not set the time values with `np.arange(start, stop, dt)`, as the
+                    # number of elements depends on numerical noise
+                    n_time_values = U.shape[0] + int(not req_last_control_state)
+                    time_values = reference + np.arange(n_time_values) * dt
             else:
                 time_values = np.array([reference, reference + dt])
         else:
@@ -599,6 +596,12 @@ class TSCPredictMixin(TSCBase):
                         req_time_values >= reference - _numerical_tol
                     ]
 
+                    if req_time_values.size == 0:
+                        raise ValueError(
+                            f"There are no time values in 'U' that are greater "
+                            f"than the {reference=} time value in 'X'."
+                        )
+
                     if not req_last_control_state:
                         req_time_values = np.append(
                             req_time_values, req_time_values[-1] + dt
@@ -607,7 +610,7 @@ class TSCPredictMixin(TSCBase):
                     if (
                         time_values.shape != req_time_values.shape
                         or not (
-                            np.abs(np.array(time_values - req_time_values))
+                            np.abs((time_values - req_time_values).astype(float))
                             <= _numerical_tol
                         ).all()
                     ):
-- 
2.43.0


From 2ad1815980e24a60b05a2598a0ad98094bfa916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 051/113] fix: reset feature attributes in every fit

---
 datafold/dynfold/base.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index fb1a0ea..88018f2 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -253,30 +253,28 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         X,
         n_features_out: Optional[int] = None,
     ) -> None:
-        if not hasattr(self, "n_features_in_"):
-            # sklearn function to set n_features_in_
-            self._check_n_features(X, reset=True)
-
-        if not hasattr(self, "feature_names_in_"):
-            if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
-                # workaround for datafold to support non-str feature names
-                # sklearn does only support feature names of type str
-                # Note that there is a guarantee for TSCDataFrame that the feature names have
-                # same type
-                self.feature_names_in_ = X.columns.to_numpy()
-            else:
-                # sklearn function to set feature_names_in_
-                self._check_feature_names(X, reset=True)
+        # Note: always set the attributes, because a model can be re-fit with other data
+        # sklearn function to set n_features_in_
+        self._check_n_features(X, reset=True)
+
+        if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
+            # workaround for datafold to support non-str feature names
+            # sklearn does only support feature names of type str
+            # Note that there is a guarantee for TSCDataFrame that the feature names have
+            # same type
+            self.feature_names_in_ = X.columns.to_numpy()
+        else:
+            # sklearn function to set feature_names_in_
+            self._check_feature_names(X, reset=True)
 
         # TODO: set features out implemented in alignment to SLEO013, but this proposal was
         #  rejected -- think of removing n_features_out (check how often and where it is used)
         # https://scikit-learn-enhancement-proposals.readthedocs.io/en/latest/slep013/proposal.html  # noqa
-        if not hasattr(self, "n_features_out_"):
-            if n_features_out is None:
-                feature_out = self.get_feature_names_out()
-                self.n_features_out_: int = len(feature_out)
-            else:
-                self.n_features_out_ = n_features_out
+        if n_features_out is None:
+            feature_out = self.get_feature_names_out()
+            self.n_features_out_: int = len(feature_out)
+        else:
+            self.n_features_out_ = n_features_out
 
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
-- 
2.43.0


From aafad0172c8469632b831f35835effe73718ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 052/113] fix: EDMD.reconstruct with series in any order and
 control

---
 datafold/appfold/edmd.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a9865b5..3e30848 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -712,7 +712,11 @@ class EDMD(
     def _reconstruct(self, X: TSCDataFrame, U: Optional[TSCDataFrame], qois):
         X_reconstruct = []
 
-        if self.dmd_model.is_time_invariant and not X.is_datetime_index():
+        if (
+            self.dmd_model.is_time_invariant
+            and not X.is_datetime_index()
+            and U is None  # the time values of X must match the ones in U
+        ):
             # TODO: support for datetime_index requires implementation.
             orig_index = X.index.copy(deep=True)
             X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
@@ -725,7 +729,7 @@ class EDMD(
         ):
             if U is not None:
                 U_select = U.loc[pd.IndexSlice[X_ic.ids, :], :]
-                InitialCondition.validate_control(X_ic, U)
+                InitialCondition.validate_control(X_ic, U_select)
             else:
                 U_select = None
 
@@ -742,7 +746,11 @@ class EDMD(
 
             X_reconstruct.append(X_est_ts)
 
-        X_reconstruct = pd.concat(X_reconstruct, axis=0)
+        # The initial conditions are grouped (and sorted) by the time values, use again the
+        # same order of time series as in X
+        X_reconstruct = pd.concat(X_reconstruct, axis=0).loc[
+            X.index.unique(level=TSCDataFrame.tsc_id_idx_name), :
+        ]
 
         if normalized_time:
             # TODO: this can maybe be done better if it becomes in some scenario too
@@ -759,7 +767,9 @@ class EDMD(
                         .reset_index(drop=True)
                     )
 
-                recovered_index = X.groupby(TSCDataFrame.tsc_id_idx_name).apply(_apply)
+                recovered_index = X.groupby(
+                    TSCDataFrame.tsc_id_idx_name, sort=False
+                ).apply(_apply)
                 recovered_index = pd.MultiIndex.from_frame(recovered_index)
             else:
                 recovered_index = orig_index
-- 
2.43.0


From 73b66ab7b5015a0e3c9b845a976553a8b8cd2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 053/113] fix: number of control time values in
 InitialCondition.from_array_control

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 907d38c..1b8c399 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1851,7 +1851,7 @@ class InitialCondition:
             raise ValueError("")
 
         if time_values is None:
-            time_values = np.arange(0, U.shape[0] * dt, dt)
+            time_values = np.arange(U.shape[0]) * dt
 
         U = TSCDataFrame.from_array(
             U, time_values=time_values, feature_names=control_names, ts_id=ts_id
-- 
2.43.0


From 6a9474ab541cad34e834722fa96a5befb6ca4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 054/113] fix: time_values, ids and assign_ids_sequential with
 unsorted index levels

---
 datafold/pcfold/timeseries/accessor.py   | 6 ++----
 datafold/pcfold/timeseries/collection.py | 6 ++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 25954d9..e7c68a9 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -841,11 +841,9 @@ class TSCAccessor:
             The data with time series IDs in sequential order.
         """
         self._tsc_df.index = self._tsc_df.index.remove_unused_levels()
-        # levels[0] = IDs, levels[1] = time
-        n_timeseries = len(self._tsc_df.index.levels[0])
-
+        # levels[0] = IDs (not necessarily sorted), levels[1] = time
         self._tsc_df.index = self._tsc_df.index.set_levels(
-            np.arange(n_timeseries), level=0
+            np.argsort(np.argsort(self._tsc_df.index.levels[0])), level=0
         )
         return self._tsc_df
 
diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 1b8c399..8fe5035 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -988,7 +988,8 @@ class TSCDataFrame(pd.DataFrame):
         """The time series IDs in the collection."""
         # update index by removing potentially unused levels
         self.index = self.index.remove_unused_levels()
-        return self.index.levels[0]
+        # the levels themselves are not necessarily sorted
+        return self.index.levels[0].sort_values()
 
     @property
     def delta_time(self) -> Union[pd.Series, int, float, np.timedelta64]:
@@ -1522,7 +1523,8 @@ class TSCDataFrame(pd.DataFrame):
             all time values that appear in the collection
         """
         self.index = self.index.remove_unused_levels()
-        ret_idx = np.asarray(self.index.levels[1])
+        # the levels themselves are not necessarily sorted
+        ret_idx = np.sort(np.asarray(self.index.levels[1]))
         if self.fixed_delta is not None and with_fixed_delta:
             ret_idx = ret_idx.astype(float)
             ret_idx *= self.fixed_delta
-- 
2.43.0


From 09acb9c76938cf949edf92d545863b0edd43c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 055/113] fix: order of features in
 projection_matrix_from_feature_names

---
 datafold/utils/general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index 73c3aa9..3187357 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -237,9 +237,10 @@ def projection_matrix_from_feature_names(
     scipy.sparse.csr_matrix
         projection matrix
     """
-    project_indices = np.where(np.isin(features_all, features_select))[0]
+    # the order of `features_select` is maintained
+    project_indices = pd.Index(features_all).get_indexer(pd.Index(features_select))
 
-    if len(project_indices) != len(features_select):
+    if (project_indices < 0).any():
         raise ValueError(
             "Not all features from 'feature_select' are contained in 'features_all'."
         )
-- 
2.43.0


From 32b8a8f5f93be61c0d9266af47453ad8d96ebb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 056/113] fix: system type and mode follow parameters changed
 after initialization

---
 datafold/dynfold/dmd.py       | 3 +++
 datafold/dynfold/dynsystem.py | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 73055a6..47352d4 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1253,6 +1253,9 @@ class DMDStandard(DMDBase):
         self._validate_and_setup_fit_attrs(X=X)
         self._validate_parameters()
 
+        # the parameter can change after the initialization (see `set_params`)
+        self.sys_type = "differential" if self.approx_generator else "flowmap"
+
         store_system_matrix, sample_weights = self._read_fit_params(
             attrs=[
                 ("store_system_matrix", False),
diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 7ee06db..cbc7e6c 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -453,7 +453,12 @@ class LinearDynamicalSystem:
         self._check_system_type()
         self._check_system_mode()
 
-        self._evolve_system_states = SystemSolveStrategy.select_strategy(
+        # raises an error if there is no solver for the specified system
+        self._select_system_solver()
+
+    def _select_system_solver(self):
+        # Note: the attributes can change after the initialization (see `set_params`)
+        return SystemSolveStrategy.select_strategy(
             system_type=self.sys_type,
             system_mode=self.sys_mode,
             is_controlled=self.is_controlled,
@@ -989,7 +994,7 @@ class LinearDynamicalSystem:
         )
 
         # write the predicted states in time_series_tensor
-        time_series_tensor = self._evolve_system_states(
+        time_series_tensor = self._select_system_solver()(
             time_series_tensor=time_series_tensor,
             initial_conditions=initial_conditions,
             sys_matrix=sys_matrix,
-- 
2.43.0


From d75e3ea6fb4016a048075097016bb5f8303a7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 057/113] fix: time values in EDMD.transform of an array

---
 datafold/appfold/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 3e30848..b57300a 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1448,7 +1448,7 @@ class EDMD(
             X = TSCDataFrame.from_array(
                 X,
                 feature_names=self.feature_names_in_,
-                time_values=np.arange(0, self.dt_ * X.shape[0], self.dt_),
+                time_values=np.arange(X.shape[0]) * self.dt_,
             )
 
         if self.include_id_state:
-- 
2.43.0


From 8a86ba08ae1f19be291185dd03dc5c1c9286e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 058/113] fix: control input in stepwise EDMD predictions

---
 datafold/appfold/edmd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index b57300a..b71be16 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -892,6 +892,10 @@ class EDMD(
         X = X.tsc.expand_time_values(time_values=time_values[1:])
         all_time_values = X.time_values()
 
+        if U is not None:
+            # the time series in X are sorted by the ID now
+            U = U.loc[X.ids, :]
+
         for i in range(self.n_samples_ic_, len(time_values) + self.n_samples_ic_ - 1):
             current_ic_time = all_time_values[i - self.n_samples_ic_ : i]
             assert current_ic_time[-1] == time_values[i - self.n_samples_ic_]
@@ -900,7 +904,8 @@ class EDMD(
             ]
 
             if U is not None:
-                _U_current = U.loc[pd.IndexSlice[:, current_ic_time], :]
+                # the control acts on the last sample of the initial condition
+                _U_current = U.loc[pd.IndexSlice[:, current_ic_time[-1:]], :]
             else:
                 _U_current = None
 
-- 
2.43.0


From ffb3973adf7ae068a0a4f7182b479986160ccfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 059/113] fix: control input in EDMD predictions with pipeline
 inverse

---
 datafold/appfold/edmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index b71be16..08edfc8 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -867,7 +867,10 @@ class EDMD(
 
         else:
             # predict all EDMD-dictionary time series
-            X_ts = self.dmd_model.predict(X_dict, time_values=time_values)
+            dmd_params = dict(U=U, time_values=time_values)
+            dmd_params = {k: v for k, v in dmd_params.items() if v is not None}
+
+            X_ts = self.dmd_model.predict(X_dict, **dmd_params)
 
             # transform from EDMD-dictionary space by pipeline inverse_transform
             X_ts = self.inverse_transform(X_ts)
-- 
2.43.0


From ffa23aab8d8123886788a0c1c022ac36f8f8e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 060/113] fix: k of the sklearn.knn distance backend selected
 by name

---
 datafold/pcfold/distance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 22ad4ba..1e5d994 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -1054,6 +1054,7 @@ def init_distance_algorithm(
         "metric": metric,
         "cut_off": cut_off,
         "kmin": k,
+        "k": k,
         "backend_options": backend_options,
     }
     keys = deepcopy(list(kwargs.keys()))
-- 
2.43.0


From 117be529f55b108e59ff4aa5924ae3d7691be803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 061/113] fix: symmetric distance algorithms depended on
 earlier instantiations

---
 datafold/pcfold/distance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 1e5d994..c2ce793 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -906,9 +906,12 @@ class GuessOptimalDist(DistanceAlgorithm):
 
     name = "guess_optimal"
 
+    @classmethod
+    def is_symmetric(cls):
+        return True
+
     def __new__(cls, metric="euclidean", is_symmetric=True, cut_off=np.inf, kmin=None):
         cut_off = cut_off or np.inf
-        cls.is_symmetric = lambda: is_symmetric
 
         if np.isinf(cut_off):  # dense case
             backend_class = BruteForceDist(cut_off=cut_off, metric=metric)
-- 
2.43.0


From a1851debc526290fd21f85549f4eed84cd4e2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 062/113] fix: distance search structures reused for other
 reference points

---
 datafold/pcfold/distance.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index c2ce793..7f6898b 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -187,6 +187,14 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
                 )
         return X, Y, is_pdist
 
+    def _is_reference(self, X):
+        """Whether the search structure was set up for the reference points `X`."""
+        return hasattr(self, "_reference") and np.array_equal(self._reference, X)
+
+    def _set_reference(self, X):
+        # own copy, because the search structure refers to the memory of the points
+        self._reference = np.array(X)
+
     def _validate_metric(self, valid, metric):
         if metric not in valid:
             raise ValueError(
@@ -717,8 +725,11 @@ class ScipyKdTreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "kdtree_x_"):
-            self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
+        if not self._is_reference(X):
+            self._set_reference(X)
+            self.kdtree_x_ = scipy.spatial.cKDTree(
+                self._reference, **self.backend_options
+            )
 
         if is_pdist:
             distance_matrix = self.kdtree_x_.sparse_distance_matrix(
@@ -727,10 +738,6 @@ class ScipyKdTreeDist(DistanceAlgorithm):
                 output_type="coo_matrix",
             )
         else:
-            if not hasattr(self, "kdtree_x_"):
-                # else reuse from pdist call
-                self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
-
             kdtree_y = scipy.spatial.cKDTree(Y, **self.backend_options)
 
             distance_matrix = kdtree_y.sparse_distance_matrix(
@@ -826,8 +833,9 @@ class SklearnBalltreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
-            self.nn_ = self._fit_nearest_neighbor(X)
+        if not self._is_reference(X):
+            self._set_reference(X)
+            self.nn_ = self._fit_nearest_neighbor(self._reference)
 
         if is_pdist:
             distance_matrix = self.nn_.radius_neighbors_graph(mode="distance")
@@ -859,14 +867,15 @@ class SklearnKNN(DistanceAlgorithm):
     def __call__(self, X, Y=None):
         X, Y, is_pdist = self._validate_X_Y(X, Y=Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if not self._is_reference(X):
+            self._set_reference(X)
             self.nn_ = KNeighborsTransformer(
                 mode="distance",
                 n_neighbors=self.k,
                 metric=self.metric,
                 **self.backend_options,
             )
-            self.nn_.fit(X)
+            self.nn_.fit(self._reference)
 
         if is_pdist:
             # here, the connection to self is not computed (but inserted below)
-- 
2.43.0


From 7e60aa4db823f084a8f4bc79ebe3a4d78fee4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 063/113] fix: kmin in a dense kd-tree or ball-tree distance
 matrix

---
 datafold/pcfold/distance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 7f6898b..3d796f1 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -378,8 +378,12 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
         )
 
         # only for the sparse case we care about kmin:
-        apply_kmin_procedure = self.kmin is not None and (
-            (self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist)
+        apply_kmin_procedure = (
+            scipy.sparse.issparse(distance_matrix)
+            and self.kmin is not None
+            and (
+                (self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist)
+            )
         )
 
         if apply_kmin_procedure:
-- 
2.43.0


From bbb36544a38e8a3635ee3f6890ebff1ead95b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 064/113] fix: kmin neighbors stored as Euclidean distance
 under sqeuclidean

---
 datafold/pcfold/distance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 3d796f1..661fa67 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -331,6 +331,10 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
             nnz_distance_mask = (distances != 0).astype(bool)
             distances = distances[nnz_distance_mask]
 
+            if metric == "sqeuclidean":
+                # the ball tree computes Euclidean distances
+                distances = np.square(distances)
+
             knn_query_indices = np.repeat(knn_query_indices, kmin)[nnz_distance_mask]
 
             columns_indices = np.reshape(
-- 
2.43.0


From 5dacf41dc0fffe399ff4e9cc1ed4729f8b16471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 065/113] fix: brute distance matrix dropped pairs exactly at
 the cut-off

---
 datafold/pcfold/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 661fa67..b628e07 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -249,7 +249,7 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
         # csr_matrix(distance_matrix) removes internally all zeros.
 
         distance_matrix[distance_matrix == 0] = self._invalid_dist_value
-        distance_matrix[distance_matrix >= cut_off] = 0
+        distance_matrix[distance_matrix > cut_off] = 0
         distance_matrix = scipy.sparse.csr_matrix(distance_matrix)
         distance_matrix.data[distance_matrix.data == self._invalid_dist_value] = 0
 
-- 
2.43.0


From ac8786631e41ee7b7a5375071dea116afe500a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 066/113] fix: cosine in the cone kernel

---
 datafold/pcfold/kernels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 55aed25..250a4e6 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2175,12 +2175,11 @@ class ConeKernel(TSCManifoldKernel):
 
             # special handling of (almost) duplicates -> denominator by zero leads to nan
             zero_mask = np.less_equal(denominator, 1e-14, out=zero_mask)
-            cos_matrix[row_idx, zero_mask] = 0.0  # -> np.cos(0) = 1 later
+            cos_matrix[row_idx, zero_mask] = 0.0
             cos_matrix[row_idx, ~zero_mask] /= denominator[~zero_mask]
 
         # memory and cache efficient solving with no intermediate memory allocations:
-        # cos_matrix = 1 - self.zeta * np.square(np.cos(cos_matrix))
-        cos_matrix = np.cos(cos_matrix, out=cos_matrix)
+        # cos_matrix = 1 - self.zeta * np.square(cos_matrix)
         cos_matrix = np.square(cos_matrix, out=cos_matrix)
         cos_matrix = np.multiply(self.zeta, cos_matrix, out=cos_matrix)
         cos_matrix = np.subtract(1.0, cos_matrix, out=cos_matrix)
-- 
2.43.0


From a6068ea972649e6bae86e3070ad8743574f56718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 067/113] fix: density normalization of the Roseland kernel

---
 datafold/pcfold/kernels.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 250a4e6..d15bdca 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1777,14 +1777,18 @@ class RoselandKernel(PCManifoldKernel):
         return obj.A1 if is_sparse else obj
 
     def _normalize_density(self, kernel_matrix, is_fit):
-        is_sparse = scipy.sparse.spmatrix(kernel_matrix)
+        is_sparse = scipy.sparse.issparse(kernel_matrix)
 
         if is_fit:
-            landmark_density = self._cast_array(kernel_matrix.sum(axis=0), is_sparse)
+            landmark_density = np.power(
+                self._cast_array(kernel_matrix.sum(axis=0), is_sparse), self.alpha
+            )
         else:
             landmark_density = self.landmark_density_
 
-        data_density = self._cast_array(kernel_matrix.sum(axis=1), is_sparse)
+        data_density = np.power(
+            self._cast_array(kernel_matrix.sum(axis=1), is_sparse), self.alpha
+        )
 
         normalized_kernel_matrix = _symmetric_matrix_division(
             kernel_matrix,
-- 
2.43.0


From e3babc06b8c51860ee32d0f1333a64c80e5a2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 068/113] fix: continuous nearest neighbor kernel modified the
 distance matrix

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index d15bdca..ba5503c 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1228,7 +1228,7 @@ class ContinuousNNKernel(PCManifoldKernel):
         dist_knn = _kth_nearest_neighbor_dist(distance_matrix, self.k_neighbor)
 
         distance_factors = _symmetric_matrix_division(
-            distance_matrix,
+            distance_matrix.copy(),  # the division is in-place
             vec=np.sqrt(dist_knn),
             is_symmetric=self.distance.is_symmetric,
             vec_right=np.sqrt(self.reference_dist_knn_) if not is_pdist else None,
-- 
2.43.0


From bd4ee4f6d94315f593dd8f2a1f6b6d6816670e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 069/113] fix: thinplate kernel on sparse distances

---
 datafold/pcfold/kernels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index ba5503c..927ac94 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -981,7 +981,10 @@ class ThinplateKernel(RadialBasisKernel):
         kernel_matrix = _apply_kernel_function_numexpr(
             distance_matrix, expr="D**2 * log(D)"
         )
-        kernel_matrix[np.isnan(kernel_matrix)] = 0
+        if scipy.sparse.issparse(kernel_matrix):
+            kernel_matrix.data[np.isnan(kernel_matrix.data)] = 0
+        else:
+            kernel_matrix[np.isnan(kernel_matrix)] = 0
         return kernel_matrix
 
 
-- 
2.43.0


From 4d8cbe16cc4867d32cb7d97622a852d4cd20012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 070/113] fix: distance options of kernels

---
 datafold/pcfold/kernels.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 927ac94..b93164d 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -702,6 +702,7 @@ class RadialBasisKernel(PCManifoldKernel, metaclass=abc.ABCMeta):
             if distance.metric != required_metric:
                 raise _metric_mismatch
         elif isinstance(distance, dict):
+            distance = dict(distance)  # do not change the dictionary of the user
             _exist_metric = distance.pop("metric", None)
 
             if _exist_metric is None or _exist_metric == required_metric:
@@ -1108,10 +1109,11 @@ class ContinuousNNKernel(PCManifoldKernel):
             self.k_neighbor = int(k_neighbor)
 
         if distance is None or isinstance(distance, dict):
-            distance = distance or {}
-            distance.setdefault("kmin", self.k_neighbor)
+            distance = dict(distance or {})  # do not change the dictionary of the user
+            distance.setdefault("k", distance.pop("kmin", self.k_neighbor))
             distance.setdefault("metric", "euclidean")
-            distance = init_distance_algorithm(backend="guess_optimal", **distance)
+            distance.setdefault("backend", "guess_optimal")
+            distance = init_distance_algorithm(**distance)
         elif isinstance(distance, DistanceAlgorithm) and distance.dist_type == "knn":
             if distance.k < self.k_neighbor:
                 raise ValueError(
@@ -2066,7 +2068,7 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = distance or {}
+        distance = dict(distance or {})  # do not change the dictionary of the user
 
         distance.setdefault("metric", "sqeuclidean")
 
-- 
2.43.0


From 4865eac7d8dd682888632e0a56482360bc0e4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 071/113] fix: eigensolver treats non-symmetric distances as
 non-symmetric and rejects negative imaginary parts

---
 datafold/pcfold/eigsolver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index b568c81..89e340f 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -73,7 +73,7 @@ def scipy_eigsolver(
     # check only for n_eigenpairs == n_features and n_eigenpairs < n_features
     # wrong parametrized n_eigenpairs are catched in scipy functions
     if n_eigenpairs == n_features:
-        if kernel._is_symmetric_kernel:
+        if kernel.is_symmetric:
             scipy_eigvec_solver = scipy.linalg.eigh
         else:
             scipy_eigvec_solver = scipy.linalg.eig
@@ -255,8 +255,8 @@ def compute_kernel_eigenpairs(
             "eigenvalues or eigenvectors contain 'NaN' or 'inf' values."
         )
 
-    if kernel._is_symmetric_kernel:
-        if np.any(eigvals.imag > 1e2 * sys.float_info.epsilon):
+    if kernel.is_symmetric:
+        if np.any(np.abs(eigvals.imag) > 1e2 * sys.float_info.epsilon):
             raise NumericalMathError(
                 "Eigenvalues have non-negligible imaginary part (larger than "
                 f"{1e2 * sys.float_info.epsilon})."
-- 
2.43.0


From 4910c3977f56c45418cb2edd02407a6345cf0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 072/113] fix: compute all eigenpairs of sparse kernel matrices

---
 datafold/pcfold/eigsolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index 89e340f..19b937f 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -78,6 +78,10 @@ def scipy_eigsolver(
         else:
             scipy_eigvec_solver = scipy.linalg.eig
 
+        if scipy.sparse.issparse(kernel_matrix):
+            # all eigenpairs are only available with the dense solvers
+            kernel_matrix = kernel_matrix.toarray()
+
         solver_kwargs: dict[str, object] = {
             "check_finite": False
         }  # should be checked already
-- 
2.43.0


From a1c009a83a99be0dab14251a9031a9e557b7d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 073/113] fix: Roseland applies time exponent in fit_transform
 and keeps type of a DataFrame

---
 datafold/dynfold/dmap.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 38265ec..c60e7ea 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1214,14 +1214,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             svdvec_left_interp, svdvals
         )
 
-        if isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
-            roseland_embedding = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=roseland_embedding,
-                except_columns=self.get_feature_names_out(),
-            )
-
-        return roseland_embedding
+        return self._same_type_X(
+            X, values=roseland_embedding, feature_names=self.get_feature_names_out()
+        )
 
     def fit_transform(self, X: TransformType, y=None, **fit_params) -> np.ndarray:
         """Compute Roseland fit from data and apply embedding on the same data.
@@ -1245,14 +1240,13 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
 
-        if isinstance(X, TSCDataFrame):
-            svdvec_left = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=svdvec_left,
-                except_columns=self.get_feature_names_out(),
-            )
+        roseland_embedding = self._perform_roseland_embedding(
+            np.asarray(svdvec_left), svdvals
+        )
 
-        return svdvec_left
+        return self._same_type_X(
+            X, values=roseland_embedding, feature_names=self.get_feature_names_out()
+        )
 
 
 class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
-- 
2.43.0


From fa534841cc134854384ac1990f7c434461e8e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 074/113] fix: Roseland does not overwrite the kernel parameter

---
 datafold/dynfold/dmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index c60e7ea..4731204 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1144,11 +1144,15 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             ensure_min_samples=2,
         )
 
-        if self.kernel is None:
-            self.kernel = self._get_default_kernel()
+        # deepcopy to not mutate the original self.kernel attribute
+        internal_kernel = (
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
+        )
 
         self.rose_kernel_ = RoselandKernel(
-            internal_kernel=self.kernel, alpha=self.alpha
+            internal_kernel=internal_kernel, alpha=self.alpha
         )
 
         kernel_matrix = self.rose_kernel_(self.landmarks_, X)
-- 
2.43.0


From cf673058338826bb09b2f1d492323fd24ea123d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 075/113] fix: Roseland supports target coordinates for time
 series and landmark selection for frames

---
 datafold/dynfold/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 4731204..d4bca5e 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -964,10 +964,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             )
 
         if n_landmarks == X.shape[0]:
-            landmarks = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            landmarks = X.to_numpy() if isinstance(X, pd.DataFrame) else X
         else:
             landmarks, _ = random_subsample(
-                X.to_numpy() if isinstance(X, TSCDataFrame) else X,
+                X.to_numpy() if isinstance(X, pd.DataFrame) else X,
                 n_landmarks,
                 random_state=self.random_state,
             )
@@ -1008,7 +1008,7 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         It is assumed that the model is already fit.
         """
         if hasattr(self, "target_coords_"):
-            svdvec_left = self.svdvec_left_[:, self.target_coords_]
+            svdvec_left = np.asarray(self.svdvec_left_)[:, self.target_coords_]
             svdvec_right = self.svdvec_right_[:, self.target_coords_]
             svdvals = self.svdvalues_[self.target_coords_]
         else:
-- 
2.43.0


From e6302a22a0496c8bc2efc3210c3bf23eaa8b214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 076/113] fix: revert the diffusion time in
 DiffusionMaps.inverse_transform

---
 datafold/dynfold/dmap.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index d4bca5e..62c6008 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -683,7 +683,16 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
                 np.asarray(eigvec), _X, cond=None
             )[0]
 
-        X_orig_space = np.asarray(X) @ self.inv_coeff_matrix_
+        eigvec_coords = np.asarray(X)
+
+        if self.time_exponent != 0:
+            # revert the scaling of the embedding
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvec_coords = mat_dot_diagmat(
+                eigvec_coords, np.power(eigvals, -float(self.time_exponent))
+            )
+
+        X_orig_space = eigvec_coords @ self.inv_coeff_matrix_
 
         try:
             feature_names = self.feature_names_in_
-- 
2.43.0


From 4f444d612cfaeff7b67808ab38aa7bf1572d98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 077/113] fix: outdated inverse coefficients in DiffusionMaps

---
 datafold/dynfold/dmap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 62c6008..661fa5e 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -453,9 +453,15 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         self.target_coords_ = indices
 
         self.n_features_out_ = len(self.target_coords_)
+        self._reset_inverse_coeff()
 
         return self
 
+    def _reset_inverse_coeff(self):
+        # the matrix depends on the eigenpairs and the selected coordinates
+        if hasattr(self, "inv_coeff_matrix_"):
+            del self.inv_coeff_matrix_
+
     def get_feature_names_out(self, input_features=None):
         if hasattr(self, "target_coords_"):
             feature_names = np.array([f"dmap{i}" for i in self.target_coords_])
@@ -522,6 +528,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         )
 
         self.X_fit_ = X
+        self._reset_inverse_coeff()
         kernel_matrix_ = self._dmap_kernel(X=X, **kernel_kwargs)
 
         # choose object to copy time information from, if applicable
-- 
2.43.0


From 032758ee22819a35adc883fe3864c82bacc46643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 078/113] fix: time exponent with target coordinates in
 DiffusionMaps

---
 datafold/dynfold/dmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 661fa5e..b968e3b 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -381,7 +381,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         return approx_eigenvectors
 
     def _perform_dmap_embedding(
-        self, eigenvectors: Union[np.ndarray, pd.DataFrame]
+        self, eigenvectors: Union[np.ndarray, pd.DataFrame], eigenvalues: np.ndarray
     ) -> Union[np.ndarray, pd.DataFrame]:
         check_scalar(
             self.time_exponent,
@@ -392,7 +392,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if self.time_exponent == 0:
             dmap_embedding = eigenvectors
         else:
-            eigvals_time = np.power(self.eigenvalues_, self.time_exponent)
+            eigvals_time = np.power(eigenvalues, self.time_exponent)
             dmap_embedding = mat_dot_diagmat(np.asarray(eigenvectors), eigvals_time)
 
         if isinstance(eigenvectors, pd.DataFrame):
@@ -628,7 +628,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             index_from=index_from,
         )
 
-        return self._perform_dmap_embedding(eigvec_nystroem)
+        return self._perform_dmap_embedding(eigvec_nystroem, eigvals)
 
     def fit_transform(self, X: TransformType, y=None, **fit_params) -> TransformType:
         """Fit model with data and apply embedding on same data.
@@ -652,8 +652,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         X = self._validate_datafold_data(X, ensure_min_samples=2)
         self.fit(X=X, y=y, **fit_params)
 
-        eigvec, _ = self._select_eigenpairs_target_coords()
-        return self._perform_dmap_embedding(eigvec)
+        eigvec, eigvals = self._select_eigenpairs_target_coords()
+        return self._perform_dmap_embedding(eigvec, eigvals)
 
     def inverse_transform(self, X: TransformType) -> TransformType:
         """Perform pre-image by mapping data from embedding space back to ambient space.
-- 
2.43.0


From 4af7ba03937c25abc61eac57b896b8b6c7e3be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 079/113] fix: DiffusionMaps keeps the type of a DataFrame

---
 datafold/dynfold/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index b968e3b..9ef61ac 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -97,7 +97,7 @@ class _DmapKernelAlgorithms:
         eigvect /= np.linalg.norm(eigvect, axis=0)[np.newaxis, :]
 
         if index_from is not None:
-            eigvect = TSCDataFrame.from_same_indices_as(
+            eigvect = df_type_and_indices_from(
                 index_from,
                 eigvect,
                 except_columns=[f"ev{i}" for i in range(n_eigenpairs)],
@@ -537,7 +537,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             # dynamics-adapted kernels can drop samples from X)
             index_from: Optional[TSCDataFrame] = kernel_matrix_
         elif (
-            isinstance(self.X_fit_, TSCDataFrame)
+            isinstance(self.X_fit_, pd.DataFrame)
             and kernel_matrix_.shape[0] == self.X_fit_.shape[0]
         ):
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
@@ -611,7 +611,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             # if possible take time index from kernel_matrix (especially
             # dynamics-adapted kernels can drop samples from X)
             index_from: Optional[TSCDataFrame] = kernel_matrix_cdist
-        elif isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
+        elif isinstance(X, pd.DataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
             # series, then take indices from X_fit_ -- this only works if no samples are
             # dropped in the kernel computation.
-- 
2.43.0


From 412ae0f25a727691deeed192b425a4389af84691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 080/113] fix: Laplacian pyramids terminate if the residual
 cannot be reduced further

---
 datafold/dynfold/outofsample.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3ef7a72..a8990e7 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -547,6 +547,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
         LOOCV_INCREASES = 2
         TINY_RES = 3
         TERMINATED = 4
+        NO_PROGRESS = 5
 
     def __init__(
         self,
@@ -626,14 +627,16 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
         _tags["multioutput"] = True
         return _tags
 
-    def _termination_rules_single(self, current_residual_norm, last_residual_norm):
+    def _termination_rules_single(
+        self, current_residual_norm, last_residual_norm, kernel_converged
+    ):
         signal = self._LoopCond.NO_TERMINATION
 
         if self.auto_adaptive:
             if (
                 not np.isnan(last_residual_norm)  # nan if self.level_ <= 1
-                # stop if residual is  increasing
-                and current_residual_norm > last_residual_norm
+                # stop if residual is not decreasing
+                and current_residual_norm >= last_residual_norm
             ):
                 signal = self._LoopCond.LOOCV_INCREASES
 
@@ -653,9 +656,20 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             # Stop in any configuration, below this threshold
             signal = self._LoopCond.TINY_RES
 
+        if (
+            signal == self._LoopCond.NO_TERMINATION
+            and kernel_converged
+            and current_residual_norm >= last_residual_norm
+        ):
+            # Smaller kernel scales cannot reduce the residual any further (e.g. if there
+            # are duplicates in the point cloud with different target values)
+            signal = self._LoopCond.NO_PROGRESS
+
         return signal
 
-    def _terminate_condition_loop(self, current_residual_norm, last_residual_norm):
+    def _terminate_condition_loop(
+        self, current_residual_norm, last_residual_norm, kernel_converged
+    ):
         assert current_residual_norm.ndim == 1
         assert current_residual_norm.shape == last_residual_norm.shape
 
@@ -664,7 +678,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
 
         for i in range(nr_tests):
             signals[i] = self._termination_rules_single(
-                current_residual_norm[i], last_residual_norm[i]
+                current_residual_norm[i], last_residual_norm[i], kernel_converged
             )
 
         return signals
@@ -728,7 +742,10 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
 
         bool_idx = np.logical_or(
             loop_condition == self._LoopCond.BELOW_RES_TOL,
-            loop_condition == self._LoopCond.TINY_RES,
+            np.logical_or(
+                loop_condition == self._LoopCond.TINY_RES,
+                loop_condition == self._LoopCond.NO_PROGRESS,
+            ),
         )
 
         return (
@@ -812,6 +829,8 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             curr_loop_conditions = self._terminate_condition_loop(
                 current_residual_norm=current_residual_norm,
                 last_residual_norm=last_residual_norm,
+                # no weights between different points
+                kernel_converged=not kernel_matrix[distance_matrix > 0].any(),
             )
             func_loop_conditions[active_func_indices] = curr_loop_conditions
 
-- 
2.43.0


From 99d428ae5d6358d54bd6333b67684ee3a9d31876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 081/113] fix: mu of Laplacian pyramids must be strictly larger
 than one

---
 datafold/dynfold/outofsample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index a8990e7..3707523 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -588,6 +588,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             "mu",
             target_type=(int, np.integer, float, np.floating),
             min_val=1,
+            include_boundaries="neither",
         )
 
         if isinstance(X, np.memmap):
-- 
2.43.0


From aa9a16bb8a4e9e1d0232a0263858ad6dcaa79cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 082/113] fix: sample weights in
 GeometricHarmonicsInterpolator.score

---
 datafold/dynfold/outofsample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3707523..39a8c28 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -367,10 +367,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         y_pred = self.predict(X)
 
         score = mean_squared_error(
-            y, y_pred, sample_weight=None, multioutput=multioutput
+            y, y_pred, sample_weight=sample_weight, multioutput=multioutput
         )
 
-        if multioutput == "raw_values" and len(score) == 1:
+        if isinstance(score, np.ndarray) and len(score) == 1:
             # in case score is np.array([score])
             score = score[0]
 
-- 
2.43.0


From 958145643d4b6779e5f5f527f2180a514e775d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 083/113] fix: shape of GeometricHarmonicsInterpolator.predict
 for single samples

---
 datafold/dynfold/outofsample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 39a8c28..e482864 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -243,7 +243,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         )
 
         kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
-        return np.squeeze(kernel_matrix_ @ self._aux)
+        y_pred = kernel_matrix_ @ self._aux
+
+        # only remove the target axis (a single sample must remain)
+        return y_pred[:, 0] if y_pred.shape[1] == 1 else y_pred
 
     @warn_known_bug(gitlab_issue=16)
     def gradient(self, X: np.ndarray, vcol: Optional[int] = None) -> np.ndarray:
-- 
2.43.0


From 12c10cb69d61d0e598c1a9a2d7df21a1297148db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 084/113] fix: GeometricHarmonicsInterpolator copies the kernel

---
 datafold/dynfold/outofsample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index e482864..c264560 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -1,4 +1,5 @@
 import enum
+from copy import deepcopy
 from typing import Optional
 
 import matplotlib.pyplot as plt
@@ -178,8 +179,11 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
             y = y[:, np.newaxis]
         check_consistent_length(X, y)
 
+        # deepcopy, because kernels can store attributes of the training data
         internal_kernel = (
-            self.kernel if self.kernel is not None else self._get_default_kernel()
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
         )
 
         self._dmap_kernel = DmapKernelFixed(
-- 
2.43.0


From 7d33108c0934f42b23976becffbcd89b8afb13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 085/113] fix: LQR control sequence for several inputs

---
 datafold/appfold/mpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 27547b6..34ee9f2 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -653,7 +653,8 @@ class LQR:
                 "'preset_target_state'"
             )
 
-        u = -self.Flqr @ (self.edmd.transform(X).to_numpy() - target_state_dict).T
+        X_dict = self.edmd.transform(X).to_numpy()
+        u = -(X_dict - np.asarray(target_state_dict)) @ self.Flqr.T
         u = TSCDataFrame.from_array(
             u,
             time_values=X.time_values()[-1],
-- 
2.43.0


From d09c146318190facc5514959c6ff927331144b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 086/113] fix: closed loop of KMPC without augmented control

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 34ee9f2..4f7aca0 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -558,7 +558,7 @@ class KMPC:
                 edmd_state = state.tsc.augment_control_input(U_next).iloc[[-1], :]
                 edmd_state = edmd_state.loc[:, self.edmd.feature_names_in_]
             else:
-                edmd_state = state.loc[:, self.edmd.feature_names_in_]
+                edmd_state = state.iloc[[-1], :].loc[:, self.edmd.feature_names_in_]
 
             # TODO: preallocating memory and writing in is more efficient than concat
             # store control input and state the sequence, which is used later for plotting
-- 
2.43.0


From b1d384fb4f7408636d4532bca279044c5cc1e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 087/113] fix: KMPC accepts bounds in the documented order

---
 datafold/appfold/mpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 4f7aca0..e72f77e 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -350,15 +350,15 @@ class KMPC:
 
             # right hand side of inequality. NOTE: at this point 'h' is incomplete and
             # must be adapted with the initial condition of the system (which is unknown here)
-            Xlb = np.tile(self.state_bounds[:, 0], self.horizon)
-            Xub = np.tile(self.state_bounds[:, 1], self.horizon)
+            Xlb = np.tile(np.min(self.state_bounds, axis=1), self.horizon)
+            Xub = np.tile(np.max(self.state_bounds, axis=1), self.horizon)
             h = np.hstack([Xub, -Xlb])
         else:
             G, h = [None, None]
 
         if self.input_bounds is not None:
-            lb = np.tile(self.input_bounds[:, 0], self.horizon)
-            ub = np.tile(self.input_bounds[:, 1], self.horizon)
+            lb = np.tile(np.min(self.input_bounds, axis=1), self.horizon)
+            ub = np.tile(np.max(self.input_bounds, axis=1), self.horizon)
         else:
             lb, ub = [None, None]
 
-- 
2.43.0


From 5e0a5c73a706a740464151ccdfa2624c1eecedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 088/113] fix: TSCDataFrame can be pickled

---
 datafold/pcfold/timeseries/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 8fe5035..d2a4d70 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -821,6 +821,13 @@ class TSCDataFrame(pd.DataFrame):
         df = pd.read_csv(filepath, index_col=[0, 1], header=[0], **kwargs)
         return cls(df)
 
+    def __getstate__(self) -> dict:
+        # include the attributes of the subclass (they are not part of pandas' state)
+        state = super().__getstate__()
+        state["is_validate"] = self.is_validate
+        state["fixed_delta"] = self.fixed_delta
+        return state
+
     @property
     def _constructor(self):
         return partial(TSCDataFrame, validate=self.is_validate)
-- 
2.43.0


From 31c2b34121731933ee8ca50d7b7c52242ea14914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 089/113] fix: clone of the ConeKernel

---
 datafold/pcfold/kernels.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index b93164d..8ede213 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2068,11 +2068,13 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = dict(distance or {})  # do not change the dictionary of the user
-
-        distance.setdefault("metric", "sqeuclidean")
+        if isinstance(distance, DistanceAlgorithm):
+            cut_off = getattr(distance, "cut_off", None)
+        else:
+            distance = dict(distance or {})  # do not change the dictionary of the user
+            distance.setdefault("metric", "sqeuclidean")
+            cut_off = distance.get("cut_off", None)
 
-        cut_off = distance.get("cut_off", None)
         if cut_off is not None and not np.isinf(cut_off):
             raise NotImplementedError(
                 "Sparse kernel matrix (by setting cut_off) is currently not implemented!"
-- 
2.43.0


From cad55bcc82b55a8d9f63b4b1ef10505c1bb95726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 090/113] fix: clone of the ContinuousNNKernel

---
 datafold/pcfold/kernels.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 8ede213..d39eb7a 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1117,18 +1117,20 @@ class ContinuousNNKernel(PCManifoldKernel):
         elif isinstance(distance, DistanceAlgorithm) and distance.dist_type == "knn":
             if distance.k < self.k_neighbor:
                 raise ValueError(
-                    f"{self.distance=} must have at least {self.k_neighbor=} neighbors"
+                    f"{distance=} must have at least {self.k_neighbor=} neighbors"
                 )
         elif (
             isinstance(distance, DistanceAlgorithm) and distance.dist_type == "range-nn"
         ):
-            if distance.kmin < self.k_neighbor:
+            if not np.isinf(distance.cut_off) and (
+                distance.kmin is None or distance.kmin < self.k_neighbor
+            ):
                 raise ValueError(
-                    f"{self.distance=} must assure that each point has at least "
+                    f"{distance=} must assure that each point has at least "
                     f"{self.k_neighbor=} neighbors (set kmin)"
                 )
         else:
-            raise TypeError(f"{type(self.distance)=} not understood")
+            raise TypeError(f"{type(distance)=} not understood")
         self.distance = distance
         self.reference_dist_knn_: np.ndarray
         super().__init__(distance=distance)
-- 
2.43.0


From eea1479349dbf8521041a4f15632991c406a872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 091/113] fix: GaussianKernel does not print

---
 datafold/pcfold/kernels.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index d39eb7a..d0d3d1e 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -808,7 +808,6 @@ class GaussianKernel(RadialBasisKernel):
                 self.epsilon = self.epsilon(distance_matrix.data)
             elif isinstance(distance_matrix, np.ndarray):
                 self.epsilon = self.epsilon(distance_matrix)
-                print(self.epsilon)
             else:
                 raise TypeError(
                     f"Invalid type: type(distance_matrix)={type(distance_matrix)}."
-- 
2.43.0


From 65cdf4bc85aa47fa3429da99009c153b7a82e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 092/113] fix: TSCRadialBasis does not change its kernel and
 can be fitted again

---
 datafold/dynfold/transform.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 9272d21..04eb1cb 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import itertools
+from copy import deepcopy
 from typing import Literal, Union
 
 import numpy as np
@@ -1231,6 +1232,14 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
                 "center_type was not checked correctly. Please report bug."
             )
 
+        # copy to not change the parameter
+        self.kernel_ = deepcopy(self.kernel)
+        if callable(getattr(self.kernel_, "epsilon", None)):
+            self.kernel_(self.centers_)  # sets the data dependent scale
+
+        # is computed (again) if required
+        self.__dict__.pop("inv_coeff_matrix_", None)
+
         self._setup_feature_attrs_fit(X)
 
         return self
@@ -1253,7 +1262,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="transform")
 
         X_intern = self._X_to_numpy(X)
-        rbf_coeff = self.kernel(self.centers_, X_intern)
+        rbf_coeff = self.kernel_(self.centers_, X_intern)
 
         return self._same_type_X(
             X, values=rbf_coeff, feature_names=self.get_feature_names_out()
@@ -1282,9 +1291,9 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         if self.center_type == "all_data":
             # compute pdist distance matrix, which is often more efficient
-            rbf_coeff = self.kernel(X)
+            rbf_coeff = self.kernel_(X)
         else:  # self.center_type in ["initial_condition", "fit_params"]:
-            rbf_coeff = self.kernel(self.centers_, X_intern)
+            rbf_coeff = self.kernel_(self.centers_, X_intern)
 
         # import matplotlib.pyplot as plt; plt.matshow(rbf_coeff)
         return self._same_type_X(
@@ -1314,7 +1323,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         if not hasattr(self, "inv_coeff_matrix_"):
             # save inv_coeff_matrix_
-            center_kernel = self.kernel(self.centers_)
+            center_kernel = self.kernel_(self.centers_)
             self.inv_coeff_matrix_ = np.linalg.lstsq(
                 center_kernel, self.centers_, rcond=None
             )[0]
-- 
2.43.0


From 6da044f80fef61bda8deff40c8d02a17a2d17f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 093/113] fix: compute_E0 uses the noisy split and all singular
 values

---
 datafold/dynfold/jsf.py | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index e7e616e..3f28afd 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -4,8 +4,6 @@ from typing import Optional, Union
 import numpy as np
 import pandas as pd
 import scipy.linalg
-import scipy.sparse
-import scipy.sparse.linalg
 from sklearn.base import BaseEstimator
 from sklearn.utils import check_scalar
 from sklearn.utils.validation import check_is_fitted
@@ -484,36 +482,20 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         float
             The E0 threshold value from :cite:t:`dietrich-2022`.
         """
-        kernel_evecs = list(self.kernel_eigenvectors_.values())
-
-        noisy = kernel_evecs[-1].copy()
+        kernel_eigenvectors = [
+            np.asarray(evecs) for evecs in self.kernel_eigenvectors_.values()
+        ]
 
         rng = np.random.default_rng(1)  # expose seed to user if required
+        noisy = kernel_eigenvectors[-1].copy()
         rng.shuffle(noisy)
-
-        kernel_eigenvectors = kernel_evecs[:-1]
-        kernel_eigenvectors.append(noisy)
-
-        eigenvectors_matrix = np.column_stack(kernel_evecs)
+        kernel_eigenvectors[-1] = noisy
 
         if len(kernel_eigenvectors) == 2:
-            ev0 = kernel_eigenvectors[0]
-            ev1 = kernel_eigenvectors[1]
-
-            gamma = scipy.sparse.linalg.svds(
-                ev0.T @ ev1,
-                k=self.n_jointly_smooth_functions,
-                which="LM",
-                return_singular_vectors=False,
-            )
+            ev0, ev1 = kernel_eigenvectors
+            gamma = scipy.linalg.svdvals(ev0.T @ ev1)
         else:
-            gamma = scipy.sparse.linalg.svds(
-                eigenvectors_matrix,
-                k=self.n_jointly_smooth_functions,
-                which="LM",
-                return_singular_vectors=False,
-            )
+            gamma = scipy.linalg.svdvals(np.column_stack(kernel_eigenvectors))
 
-        gamma = np.sort(gamma)[::-1]
         E0 = (1 + gamma[2]) / 2  # page 6 in https://arxiv.org/pdf/2004.04386.pdf
         return E0
-- 
2.43.0


From b943c95f551f2ceec80e489ec22a06f413303e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 094/113] fix: score of jointly smooth functions is a number

---
 datafold/dynfold/jsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 3f28afd..482b196 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -467,12 +467,12 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         for name in self.kernel_eigenvectors_:
             truncated_energy = np.linalg.norm(
                 np.asarray(self.kernel_eigenvectors_[name]).T
-                @ self.jointly_smooth_vectors_,
+                @ np.asarray(self.jointly_smooth_vectors_),
                 axis=0,
             )
             truncated_energies[name] = truncated_energy**2
 
-        return np.array(truncated_energies.values())
+        return np.array(list(truncated_energies.values()))
 
     def compute_E0(self) -> float:
         """Compute a threshold for the eigenvalues of the jointly smooth functions.
-- 
2.43.0


From 8f71c689bb2da8247e874aa70f1f086c2849b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 095/113] fix: JointlySmoothFunctions with fewer functions than
 requested

---
 datafold/dynfold/jsf.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 482b196..1683271 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -195,7 +195,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             W1, W2 = np.asarray(W1), np.asarray(W2)
 
             n_jointly_smooth_functions = min(
-                [self.n_jointly_smooth_functions, W1.shape[1] - 1, W2.shape[1] - 1]
+                [self.n_jointly_smooth_functions, W1.shape[1], W2.shape[1]]
             )
 
             # compute full SVD
@@ -214,6 +214,8 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             diagonal_elements = np.sqrt(diagonal_elements, out=diagonal_elements)
             diagonal_elements = np.reciprocal(diagonal_elements, out=diagonal_elements)
 
+            singular_vals = singular_vals[:n_jointly_smooth_functions]
+
             jointly_smooth_functions = (
                 1.0
                 / np.sqrt(2.0)
@@ -223,7 +225,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         else:
             # cf. Algorithm 4.2 in https://arxiv.org/pdf/2004.04386.pdf
             n_jointly_smooth_functions = min(
-                [self.n_jointly_smooth_functions, stacked_eigenvectors.shape[1]]
+                [self.n_jointly_smooth_functions, *stacked_eigenvectors.shape]
             )
 
             jointly_smooth_functions, singular_vals, _ = compute_kernel_svd(
@@ -278,7 +280,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         _dtype_probe = list(alphas.values())[0].dtype
         f_m_star = np.zeros(
-            [X.shape[0], self.n_jointly_smooth_functions], dtype=_dtype_probe
+            [X.shape[0], self.jointly_smooth_vectors_.shape[1]], dtype=_dtype_probe
         )
         tmp = np.zeros_like(f_m_star)
 
@@ -336,8 +338,15 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         return return_content
 
+    def _feature_names(self, n_functions):
+        return np.array([f"jsf{i}" for i in range(n_functions)])
+
     def get_feature_names_out(self, input_features=None):
-        return np.array([f"jsf{i}" for i in range(self.n_jointly_smooth_functions)])
+        if hasattr(self, "jointly_smooth_vectors_"):
+            # there can be less functions than requested
+            return self._feature_names(self.jointly_smooth_vectors_.shape[1])
+
+        return self._feature_names(self.n_jointly_smooth_functions)
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "JointlySmoothFunctions":
         """Compute the jointly smooth functions on training data `X`.
-- 
2.43.0


From 46c182257d42095e82081a5e050eca7a50252208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 096/113] fix: JointlySmoothFunctions keeps the DataFrame type

---
 datafold/dynfold/jsf.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 1683271..ba7d5f3 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -163,7 +163,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 n_eigenpairs=self.n_kernel_eigenvectors,
             )
 
-            if isinstance(X, pd.DataFrame) and kernel_matrix.shape[0] == X.shape[0]:
+            if isinstance(X, TSCDataFrame) and kernel_matrix.shape[0] == X.shape[0]:
                 kernel_eigenvectors = TSCDataFrame.from_same_indices_as(
                     indices_from=X,
                     values=kernel_eigenvectors,
@@ -234,12 +234,11 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 **(self.svd_solver_kwargs or {}),
             )
 
-        if isinstance(X, TSCDataFrame):
-            jointly_smooth_functions = TSCDataFrame.from_same_indices_as(
-                X,
-                jointly_smooth_functions,
-                except_columns=self.get_feature_names_out(),
-            )
+        jointly_smooth_functions = self._same_type_X(
+            X,
+            jointly_smooth_functions,
+            feature_names=self._feature_names(jointly_smooth_functions.shape[1]),
+        )
 
         return singular_vals, jointly_smooth_functions
 
@@ -266,11 +265,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             if isinstance(kernel_evec, TSCDataFrame):
                 kernel_evec = kernel_evec.to_numpy()
 
-            if isinstance(self.jointly_smooth_vectors_, TSCDataFrame):
-                alpha = kernel_evec.T @ self.jointly_smooth_vectors_.to_numpy()
-            else:
-                alpha = kernel_evec.T @ self.jointly_smooth_vectors_
-
+            alpha = kernel_evec.T @ np.asarray(self.jointly_smooth_vectors_)
             alphas[name] = alpha
 
             eigenvectors[name] = kernel_matrices[name] @ mat_dot_diagmat(
@@ -289,12 +284,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         f_m_star /= len(self.data_splits)  # divide by number of splits
 
-        if isinstance(X, TSCDataFrame) and hasattr(self, "feature_names_in_"):
-            f_m_star = TSCDataFrame.from_same_indices_as(
-                X, f_m_star, except_columns=self.get_feature_names_out()
-            )
-
-        return f_m_star
+        return self._same_type_X(
+            X, f_m_star, feature_names=self.get_feature_names_out()
+        )
 
     def _kernel_content_fit(self, X: TransformType):
         return_content: dict[str, dict] = dict()
-- 
2.43.0


From 2b71f4a30259acbce1141ec7998fbd59a4a818ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 097/113] fix: LocalRegressionSelection subsampling of a
 DataFrame

---
 datafold/dynfold/dmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 9ef61ac..723975e 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1582,9 +1582,8 @@ class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
         if not np.isinf(self.n_subsample):
-            X_numpy = X.to_numpy() if isinstance(X, TSCDataFrame) else X
             eigvec = resample(
-                X_numpy,
+                np.asarray(X),
                 replace=False,
                 n_samples=self.n_subsample,
                 random_state=self.random_state,
-- 
2.43.0


From 610b21e3554d9022c1f7e55a33d2f598ffd08bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 098/113] fix: pcm_remove_outlier counts the points in range
 also without cut-off

---
 datafold/pcfold/pointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fa1c2a..7b4e77a 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -413,7 +413,7 @@ def pcm_remove_outlier(pcm: PCManifold, kmin: int, cut_off: float):
     if scipy.sparse.issparse(distance_matrix):
         mask_non_outliers = distance_matrix.getnnz(axis=1) >= kmin
     else:
-        mask_non_outliers = (distance_matrix > 0).sum(axis=1) >= kmin
+        mask_non_outliers = (distance_matrix <= cut_off).sum(axis=1) >= kmin
 
     removed_indices = np.arange(pcm.shape[0])[np.logical_not(mask_non_outliers)]
     new_pcm = pcm[mask_non_outliers, :]
-- 
2.43.0


From 9b2c0d0878a197ebcc6814bf3fb03599313e981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 099/113] fix: pcm_subsample processes the entire point cloud
 if requested

---
 datafold/pcfold/pointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 7b4e77a..d8ec787 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -377,7 +377,7 @@ def pcm_subsample(
         subsample_indices = np.append(subsample_indices, current_indices_selected)
         subsample_points = pcm[subsample_indices, :]
 
-        if bool_mask_select_indices.sum() <= min_added_per_iteration:
+        if bool_mask_select_indices.sum() < min_added_per_iteration:
             # prematurely end loop, if not enough points are added
             break
 
-- 
2.43.0


From 9d94d97dffc65d1ffb70dbddd46712e35f9b2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 100/113] fix: pcm_subsample error for an infinite distance

---
 datafold/pcfold/pointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index d8ec787..b6c648b 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -331,12 +331,12 @@ def pcm_subsample(
     --------
     :py:meth:`datafold.utils.math.random_subsample`
     """
-    if min_distance is None and pcm.cut_off is not None:
+    if min_distance is None and pcm.cut_off is not None and np.isfinite(pcm.cut_off):
         min_distance = pcm.cut_off * 2
 
     if min_distance is None:
         raise ValueError(
-            "'cut_off' cannot be None. Either provide in 'min_distance' or 'pcm.cut_off'."
+            "'cut_off' must be finite. Either provide in 'min_distance' or 'pcm.cut_off'."
         )
 
     n_samples_pcm = pcm.shape[0]
-- 
2.43.0


From 5fc54672bc69cc0b84f6783c46254b29d0e90039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 101/113] fix: PCManifold uses the given distance settings

---
 datafold/pcfold/pointcloud.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index b6c648b..3e073ce 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -79,7 +79,7 @@ class PCManifold(np.ndarray):
 
         # Set the kernel according to user input
         obj.kernel = kernel
-        obj.distance = dist_kwargs or {}
+        obj.dist_kwargs.update(dist_kwargs or {})
 
         return obj
 
@@ -108,9 +108,10 @@ class PCManifold(np.ndarray):
         # default parameters:
         self.kernel = getattr(obj, "kernel", GaussianKernel())
 
-        self.dist_kwargs = getattr(obj, "dist_kwargs", {})
+        # copy to not share the settings between a point cloud and its views
+        self.dist_kwargs = dict(getattr(obj, "dist_kwargs", {}))
         self.dist_kwargs.setdefault("cut_off", np.inf)
-        self.dist_kwargs.setdefault("kmin", 0)
+        self.dist_kwargs.setdefault("k", None)
         self.dist_kwargs.setdefault("backend", "guess_optimal")
 
     def __repr__(self):
-- 
2.43.0


From 29ffdffa142cd266369e2e0236b23661b359553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 102/113] fix: estimate_cutoff neighbour count for subsamples

---
 datafold/pcfold/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/estimators.py b/datafold/pcfold/estimators.py
index 03e94f0..cce727f 100644
--- a/datafold/pcfold/estimators.py
+++ b/datafold/pcfold/estimators.py
@@ -83,7 +83,7 @@ def estimate_cutoff(
             **dict(exact_numeric=False)
         )
 
-        k = np.min([k, distance_matrix.shape[1]])
+        k = np.min([k, distance_matrix.shape[0]])
         # need to transpose the matrix here to correctly work with
         # _kth_nearest_neighbor_dist
         k_smallest_values = _kth_nearest_neighbor_dist(distance_matrix.T, k)
-- 
2.43.0


From 66b4efeb48758f52ec447b6adf5367e68de9cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 103/113] fix: validation of k in estimate_cutoff

---
 datafold/pcfold/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/estimators.py b/datafold/pcfold/estimators.py
index cce727f..58930ad 100644
--- a/datafold/pcfold/estimators.py
+++ b/datafold/pcfold/estimators.py
@@ -56,7 +56,7 @@ def estimate_cutoff(
     """
     from datafold.utils.general import is_integer
 
-    if k <= 1 and not is_integer(k):
+    if not is_integer(k) or k <= 1:
         raise ValueError("Parameter 'k' must be an integer greater than 1.")
     else:
         k = int(k)
-- 
2.43.0


From 15832c119d85b4577817f158ee5cb166dae4e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 104/113] fix: FourierRBF.partial_fit does not require y

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 04eb1cb..38737a0 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -983,7 +983,7 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
 
         return self
 
-    def partial_fit(self, X, y, **fit_params):
+    def partial_fit(self, X, y=None, **fit_params):
         if not hasattr(self, "fourier_components_"):
             return self.fit(X, y, **fit_params)
         else:
-- 
2.43.0


From 2be1c4455ba391c4558605c4e88c404ff85f9175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 105/113] fix: EDMD.partial_fit during the warm-up of OnlineDMD

---
 datafold/appfold/edmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 08edfc8..b9c6be7 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1419,7 +1419,9 @@ class EDMD(
                     X=X, X_dict=X_dict, y=None, U=U
                 )
 
-            if self.dmd_model.is_spectral_mode:
+            # an online model may still be in its warm-up phase, in which case there is
+            # no spectral system yet
+            if self.dmd_model.is_spectral_mode and getattr(self.dmd_model, "ready_", True):
                 self._koopman_modes = self._compute_koopman_modes(
                     inverse_map=self._inverse_map,
                 )
-- 
2.43.0


From 16ce34f62972b0d3166ab2cfdca547bf182d2160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 106/113] fix: EDMD.partial_fit with include_id_state=False

---
 datafold/appfold/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index b9c6be7..4d0c589 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1401,7 +1401,7 @@ class EDMD(
 
         if self.include_id_state and not self.dict_preserves_id_state_:
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
-        elif not self.include_id_state and not not self.dict_preserves_id_state_:
+        elif not self.include_id_state and not self.dict_preserves_id_state_:
             raise NotImplementedError(
                 "Currently, there is no implementation to partial_fit non-trivial update of "
                 "the modes. Either the dictionary must preserve the id states or "
-- 
2.43.0


From 6657627234c495c98dadbb95752b694b67f72475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 107/113] fix: EDMD.partial_fit infers dict_preserves_id_state

---
 datafold/appfold/edmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 4d0c589..a82f949 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1391,10 +1391,12 @@ class EDMD(
         fit_params = self._check_fit_params(**fit_params or {})
         dmd_fit_params = fit_params.pop("dmd", None)
 
+        self._validate_dictionary()
         X_dict = self._partial_fit(X, y, **fit_params)
 
         if initial_fit:
-            self.dict_preserves_id_state_ = self._validate_dictionary()
+            # Either automatically detected or enforced in dict_preserves_id_states
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
 
         if initial_fit:
             self.n_samples_ic_ = self._compute_n_samples_ic(X, X_dict)
-- 
2.43.0


From 93d010993a119dde15070dc73963b0784608c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 108/113] fix: EDMD.partial_fit after fit raises the intended
 ValueError

---
 datafold/appfold/edmd.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a82f949..9d5cb5e 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1372,17 +1372,17 @@ class EDMD(
         try:
             check_is_fitted(self)
             initial_fit = False
-            assert self.is_partial_fit_
         except NotFittedError:
             initial_fit = True
 
-            if hasattr(self, "is_partial_fit_") and not self.is_partial_fit_:
-                raise ValueError(
-                    "The model is already set up with the 'fit' method. "
-                    "Use `partial_fit` for both the initial and partial fits."
-                )
-            else:
-                self.is_partial_fit_ = True
+        if hasattr(self, "is_partial_fit_") and not self.is_partial_fit_:
+            raise ValueError(
+                "The model is already set up with the 'fit' method. "
+                "Use `partial_fit` for both the initial and partial fits."
+            )
+
+        if initial_fit:
+            self.is_partial_fit_ = True
             self.dt_ = X.delta_time
             self._feature_names_pred = X.columns
 
-- 
2.43.0


From cee2a3730d1e0128c97db906b1c61e40565476be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 109/113] fix: EDMD.partial_fit sets all attributes required by
 predict

---
 datafold/appfold/edmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 9d5cb5e..72f5082 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1368,6 +1368,9 @@ class EDMD(
             )
 
         self.is_controlled_ = False
+        self.is_state_transition_map_ = False
+        self.id_state_in_transition_map_ = False
+        self.is_dict_learning_ = False
 
         try:
             check_is_fitted(self)
-- 
2.43.0


From 7e482e98dcb3b1ac4fc80cdc3b32386967965759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 110/113] fix: AffineKgMPC state rows are selected by feature
 name

---
 datafold/appfold/mpc.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index e72f77e..31de5c1 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -747,6 +747,16 @@ class AffineKgMPC:  # prama: no cover
             )
 
         self.state_size = len(predictor.feature_names_in_)
+        # position of the original states within the dictionary
+        self._state_indices = pd.Index(
+            predictor.dmd_model.feature_names_in_
+        ).get_indexer(predictor.feature_names_in_)
+
+        if (self._state_indices == -1).any():
+            raise ValueError(
+                "The dictionary of the predictor must contain the original states. Set "
+                "'include_id_state=True'."
+            )
 
         if input_bounds.shape != (self.input_size, 2):
             raise ValueError(f"{input_bounds.shape=}, should be ({self.input_size=},2)")
@@ -849,7 +859,7 @@ class AffineKgMPC:  # prama: no cover
         """
         u = u.reshape(self.input_size, self.horizon + 1)
         x = self._predict(x0, u, t)
-        cost = self.cost(u, x0, xref, t, x[: self.state_size, :])
+        cost = self.cost(u, x0, xref, t, x[self._state_indices, :])
         jacobian = self.jacobian(u, x0, xref, t, x)
         return (cost, jacobian)
 
@@ -886,7 +896,7 @@ class AffineKgMPC:  # prama: no cover
         """
         u = u.reshape(self.input_size, self.horizon + 1)
         if x is None:
-            x = self._predict(x0, u, t)[: self.state_size, :]
+            x = self._predict(x0, u, t)[self._state_indices, :]
         Lhat = np.linalg.norm(self.cost_state * (x - xref), axis=0) ** 2
         Lhat += np.linalg.norm(self.cost_input * u, axis=0) ** 2
         J = np.sum(Lhat)
@@ -968,8 +978,8 @@ class AffineKgMPC:  # prama: no cover
     def _dcost_dx(self, x, xref):
         # gamma(t0:te)
         gamma = np.zeros((self.lifted_state_size, self.horizon + 1))
-        gamma[: self.state_size, :] = (
-            2 * self.cost_state * (x[: self.state_size] - xref)
+        gamma[self._state_indices, :] = (
+            2 * self.cost_state * (x[self._state_indices, :] - xref)
         )
         return gamma
 
-- 
2.43.0


From 691f9540ee0e12264aff2a687059818e7f8dcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 111/113] fix: AffineKgMPC does not reuse the lifted state of a
 modified array

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 31de5c1..b37af27 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -799,7 +799,7 @@ class AffineKgMPC:  # prama: no cover
                 pd.DataFrame(x0.T, columns=self.predictor.feature_names_in_)
                 # InitialCondition.from_array(x0.T, self.predictor.feature_names_in_)
             ).to_numpy()
-            self._cached_init_state = x0
+            self._cached_init_state = np.copy(x0)
             self._cached_lifted_state = lifted_x0
         else:
             lifted_x0 = self._cached_lifted_state
-- 
2.43.0


From ed8624d94ae3959c77c6ffc5112d0cabce48e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:37 +0000
Subject: [PATCH 112/113] fix: reconstruct and score windows of a controlled
 EDMD model

---
 datafold/appfold/edmd.py | 61 ++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 72f5082..cfdbddd 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -2223,27 +2223,22 @@ class EDMDWindowPrediction:
         )
 
         if is_controlled:
-            U = edmd._validate_datafold_data(
-                U,
-                ensure_tsc=True,
-                tsc_kwargs=dict(
-                    ensure_const_delta_time=True, ensure_delta_time=edmd.dt_
-                ),
-            )
+            X.tsc.check_required_time_delta(edmd.dt_)
+            # the time values must include the ones of the windows in X (see below)
+            U = edmd._validate_datafold_data(U, ensure_tsc=True)
 
         qois = edmd._validate_qois(
             qois=qois, valid_feature_names=edmd.feature_names_pred_
         )
 
-        X_windows = TSCDataFrame.from_frame_list(
-            list(
-                X.tsc.iter_timevalue_window(
-                    window_size=edmd.window_size,
-                    offset=offset,
-                    per_time_series=True,
-                )
+        windows = list(
+            X.tsc.iter_timevalue_window(
+                window_size=edmd.window_size,
+                offset=offset,
+                per_time_series=True,
             )
         )
+        X_windows = TSCDataFrame.from_frame_list(windows)
 
         n_timesteps = X_windows.n_timesteps
         assert isinstance(n_timesteps, int) and n_timesteps == edmd.window_size
@@ -2271,29 +2266,15 @@ class EDMDWindowPrediction:
 
         if is_controlled:
             assert U is not None  # for mypy typing
+            # Remove the first states that are not needed during the initial condition and
+            # the last state, because it is not needed for the prediction
             U_windows = TSCDataFrame.from_frame_list(
-                list(
-                    U.tsc.iter_timevalue_window(
-                        window_size=edmd.window_size,
-                        offset=offset,
-                        per_time_series=True,
-                    )
-                )
-            )
-
-            group = lambda df: df.groupby(TSCDataFrame.tsc_id_idx_name)
-
-            # remove last state, because it is not needed for the prediction
-            U_windows = group(U_windows).head(edmd.window_size - 1)
-            U_n_timesteps = U_windows.n_timesteps
-            assert (
-                isinstance(U_n_timesteps, int) and U_n_timesteps == edmd.window_size - 1
+                [
+                    U.loc[window.index[edmd.n_samples_ic_ - 1 : -1], :]
+                    for window in windows
+                ]
             )
 
-            # remove first states that are not needed during initial condition
-            drop_indices = group(U_windows).head(edmd.n_samples_ic_ - 1).index
-            U_windows = U_windows.drop(drop_indices, axis=0, errors="ignore")
-
             if return_windows:
                 index_final_windows_U = U_windows.index.copy()
             else:
@@ -2323,7 +2304,9 @@ class EDMDWindowPrediction:
         else:
             return X_reconstruct
 
-    def _window_score(self, X, y=None, sample_weight=None, qois=None, edmd=None):
+    def _window_score(
+        self, X, U=None, y=None, sample_weight=None, qois=None, edmd=None
+    ):
         """Score of reconstructed windowed time series collection.
 
         This method can overwrite the default score method of an EDMD model. In this
@@ -2336,6 +2319,10 @@ class EDMDWindowPrediction:
         ----------
         X
             Time series to reconstruct in windowed fashion.
+
+        U
+            Control time series for the data. Only required if model was fit with control.
+
         y
             ignored
 
@@ -2353,7 +2340,9 @@ class EDMDWindowPrediction:
 
         """
         # does all the checks:
-        X_reconstruct, X = edmd.reconstruct(X=X, y=y, qois=qois, return_windows=True)
+        X_reconstruct, X = edmd.reconstruct(
+            X=X, U=U, y=y, qois=qois, return_windows=True
+        )[:2]
 
         if qois is None:
             X_reconstruct = X_reconstruct.loc[:, X.columns]
-- 
2.43.0


From d6fef7c7e5db88e9c29ae132754cccfb2ccb0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 113/113] fix: spectral measure uses the conjugate transpose of
 the QZ decomposition

---
 datafold/dynfold/dmd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 47352d4..06af411 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1189,19 +1189,20 @@ class DMDStandard(DMDBase):
                 f"The shape of the projected observable {observable.shape} "
                 f"does not match the observables during fit {(self._G.shape[0], 1)}."
             )
-        observable /= np.linalg.norm(observable, 2)
+        observable = observable / np.linalg.norm(observable, 2)
 
         z = self._calc_z(kernel_order)
         d = self._calc_d(kernel_order, z)
         c = self._calc_c(kernel_order, z, smoothing)
 
-        S, T, Q, Zstar = scipy.linalg.qz(self._G_dash, self._G)
-        v1 = T @ Zstar @ observable
+        # G_dash = Q S Z^* and G = Q T Z^*
+        S, T, Q, Z = scipy.linalg.qz(self._G_dash, self._G)
+        v1 = T @ Z.conjugate().T @ observable
         Qstarg = Q.conjugate().T @ observable
         v2 = T.conjugate().T @ Qstarg
         v3 = S.conjugate().T @ Qstarg
 
-        nu = np.zeros_like(evaluation_points)
+        nu = np.zeros_like(evaluation_points, dtype=float)
 
         for k, theta in enumerate(evaluation_points):
             for j in range(kernel_order):
@@ -1334,7 +1335,7 @@ class DMDStandard(DMDBase):
                 else:
                     self.system_matrix_ = system_matrix_
 
-            if self.compute_pseudospectrum:
+            if self.compute_pseudospectrum or self.residual_filter is not None:
                 self._G = G
                 self._G_dash = G_dash
                 self._R = R
-- 
2.43.0

