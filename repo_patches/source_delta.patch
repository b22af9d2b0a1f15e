From 8c0c904c7f89f340bd0da64d9027d5eae6dc1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 01/85] fix: ignore buy orders whose affordable size is floored
 to zero by size_granularity

Such orders were filled with a size of zero, charging fixed fees and leaving an empty order record.
---
 rust/src/portfolio.rs    | 2 +-
 vectorbt/portfolio/nb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index f65e8bc..750b11e 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -884,7 +884,7 @@ fn buy(
         }
     }
 
-    if is_close(adj_size, 0.0) {
+    if is_close(final_size, 0.0) {
         return Ok((
             exec_state,
             order_not_filled(ORDER_STATUS_IGNORED, ORDER_STATUS_INFO_SIZE_ZERO),
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..dbc1962 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -176,7 +176,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From eaac43c62931200be8a0edd8457ea9bc6a15ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 02/85] fix: ignore orders of 0% instead of filling them with a
 NaN size

SizeType.Percent turned a size of 0 into 0 * inf = NaN, which was then sold and poisoned the account with NaN.
---
 rust/src/portfolio.rs    | 4 +++-
 vectorbt/portfolio/nb.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 750b11e..2f43bc3 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1292,7 +1292,9 @@ fn execute_order(
     let mut percent = f64::NAN;
     if order_size_type == SIZE_TYPE_PERCENT {
         percent = order_size.abs();
-        order_size = order_size.signum() * f64::INFINITY;
+        if order_size != 0.0 {
+            order_size = order_size.signum() * f64::INFINITY;
+        }
     }
 
     let (new_exec_state, order_result) = if order_size > 0.0 {
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index dbc1962..f879a49 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -462,7 +462,8 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     if order_size_type == SizeType.Percent:
         # Percentage of resources
         percent = abs(order_size)
-        order_size = np.sign(order_size) * np.inf
+        if order_size != 0:  # 0 * inf is NaN
+            order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
 
     if order_size > 0:
-- 
2.43.0


From 660384f96ddac64d74c75705155ea45dc907b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 03/85] fix: selling more than 100% in long-only mode must not
 open a short position

---
 rust/src/portfolio.rs    | 4 ++++
 vectorbt/portfolio/nb.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 2f43bc3..e06c471 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -1012,6 +1012,10 @@ fn sell(
 
     if !percent_val.is_nan() {
         size_limit = percent_val * size_limit;
+        if direction == DIRECTION_LONG_ONLY {
+            // Cannot sell more than there is in the position
+            size_limit = size_limit.min(exec_state.position);
+        }
     }
 
     if size_limit > max_size {
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f879a49..0dfe02f 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -275,6 +275,9 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            # Cannot sell more than there is in the position
+            size_limit = min(size_limit, exec_state.position)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From 8df68474ba6796834691c27477827ac86432aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 04/85] fix: value in simulation order follows each column when
 the call sequence changes between rows

value_in_sim_order_nb subtracted the previous asset value of whichever column
held the same call position in the previous row instead of that of the column
being processed.
---
 rust/src/portfolio.rs    | 19 +++++++++----------
 vectorbt/portfolio/nb.py | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index e06c471..78cf1d7 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -5046,29 +5046,28 @@ pub fn value_in_sim_order_py<'py>(
             let group_len = gl_cow[group] as usize;
             let to_col = from_col + group_len;
             let mut asset_value_now = 0.0f64;
-            let mut since_last_nan = group_len;
+            let mut nan_count: usize = 0;
             for j in 0..(nrows * group_len) {
                 let i = j / group_len;
                 let col = from_col + cs_cow[i * ncols + from_col + j % group_len] as usize;
-                if j >= group_len {
-                    let last_j = j - group_len;
-                    let last_i = last_j / group_len;
-                    let last_col = from_col + cs_cow[last_i * ncols + from_col + last_j % group_len] as usize;
-                    if !av_cow[last_i * ncols + last_col].is_nan() {
-                        asset_value_now -= av_cow[last_i * ncols + last_col];
+                // The call sequence may change from row to row, so replace the last value of this very column
+                if i > 0 {
+                    if av_cow[(i - 1) * ncols + col].is_nan() {
+                        nan_count -= 1;
+                    } else {
+                        asset_value_now -= av_cow[(i - 1) * ncols + col];
                     }
                 }
                 if av_cow[i * ncols + col].is_nan() {
-                    since_last_nan = 0;
+                    nan_count += 1;
                 } else {
                     asset_value_now += av_cow[i * ncols + col];
                 }
-                if since_last_nan < group_len {
+                if nan_count > 0 {
                     out[i * ncols + col] = f64::NAN;
                 } else {
                     out[i * ncols + col] = c_cow[i * ncols + col] + asset_value_now;
                 }
-                since_last_nan += 1;
             }
             from_col = to_col;
         }
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 0dfe02f..4e181e1 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6825,25 +6825,24 @@ def value_in_sim_order_nb(
         group_len = to_col - from_col
         asset_value_now = 0.0
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
             col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            # The call sequence may change from row to row, so replace the last value of this very column
+            if i > 0:
+                if np.isnan(asset_value[i - 1, col]):
+                    nan_count -= 1
+                else:
+                    asset_value_now -= asset_value[i - 1, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From 2563d6b4dd90aaf4586697708fbe3efe9373dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 05/85] fix: total profit of a column without open assets does
 not depend on the last price

With fillna_close=False, final_value, total_profit and total_return were NaN
if the last price was NaN even when no assets were held, while value was not.
---
 rust/src/portfolio.rs    | 3 +++
 vectorbt/portfolio/nb.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/rust/src/portfolio.rs b/rust/src/portfolio.rs
index 78cf1d7..7545c7d 100644
--- a/rust/src/portfolio.rs
+++ b/rust/src/portfolio.rs
@@ -5170,6 +5170,9 @@ pub fn total_profit_py<'py>(
             for col in 0..ncols {
                 if zero_mask[col] {
                     out[col] = 0.0;
+                } else if assets[col] == 0.0 {
+                    // Nothing left to value, the last price may be NaN
+                    out[col] = cash[col];
                 } else {
                     out[col] = cash[col] + assets[col] * close_cow[(nrows - 1) * ncols + col];
                 }
diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 4e181e1..c6dad6e 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6902,6 +6902,10 @@ def total_profit_nb(
                 cash[col] = add_nb(cash[col], order_cash)
 
     total_profit = cash + assets * close[-1, :]
+    for col in range(len(assets)):
+        if assets[col] == 0:
+            # Nothing left to value, the last price may be NaN
+            total_profit[col] = cash[col]
     total_profit[zero_mask] = 0.0
     return total_profit
 
-- 
2.43.0


From 2fbbbb1bf6c20e83cf3dd2c6f72c95ae84511da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 06/85] fix: stats and plots honour the trades_type setting

resolve_attr looked up get_<attr> for the original attribute and discarded the
attribute chosen by pre_resolve_attr, so trades_type had no effect.
---
 vectorbt/utils/attr_.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 320c375..4ddca70 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -164,8 +164,9 @@ class AttrResolver:
         # Resolve attribute
         cls = type(self)
         _attr = self.pre_resolve_attr(attr, final_kwargs=final_kwargs)
-        if "get_" + attr in dir(cls):
-            _attr = "get_" + attr
+        cache_key = _attr
+        if "get_" + _attr in dir(cls):
+            _attr = "get_" + _attr
         if inspect.ismethod(getattr(cls, _attr)) or inspect.isfunction(getattr(cls, _attr)):
             attr_func = getattr(self, _attr)
             attr_func_kwargs = dict()
@@ -177,19 +178,19 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and not custom_k and cache_key in cache_dct:
+                out = cache_dct[cache_key]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[attr] = out
+                    cache_dct[cache_key] = out
         else:
-            if use_caching and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and cache_key in cache_dct:
+                out = cache_dct[cache_key]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[attr] = out
+                    cache_dct[cache_key] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 9f1eee80c4586fafb5b97ad7aae0b5d82ddb6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 07/85] Revert "fix: stats and plots honour the trades_type
 setting"

This reverts commit 2fbbbb1bf6c20e83cf3dd2c6f72c95ae84511da6.
---
 vectorbt/utils/attr_.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 4ddca70..320c375 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -164,9 +164,8 @@ class AttrResolver:
         # Resolve attribute
         cls = type(self)
         _attr = self.pre_resolve_attr(attr, final_kwargs=final_kwargs)
-        cache_key = _attr
-        if "get_" + _attr in dir(cls):
-            _attr = "get_" + _attr
+        if "get_" + attr in dir(cls):
+            _attr = "get_" + attr
         if inspect.ismethod(getattr(cls, _attr)) or inspect.isfunction(getattr(cls, _attr)):
             attr_func = getattr(self, _attr)
             attr_func_kwargs = dict()
@@ -178,19 +177,19 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and cache_key in cache_dct:
-                out = cache_dct[cache_key]
+            if use_caching and not custom_k and attr in cache_dct:
+                out = cache_dct[attr]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[cache_key] = out
+                    cache_dct[attr] = out
         else:
-            if use_caching and cache_key in cache_dct:
-                out = cache_dct[cache_key]
+            if use_caching and attr in cache_dct:
+                out = cache_dct[attr]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[cache_key] = out
+                    cache_dct[attr] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 683a97d794547ebfa0b85747b75c69908a07e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 08/85] fix: selecting three or more groups keeps every column
 in its own group

The boundaries of the selected groups were taken from the group lengths
instead of their cumulative sum.
---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..6b9a267 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens)[:-1]] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From 8f71d7be2744ce7b257a1abf92b58b6debbc9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 09/85] fix: describing a mapped array with several values per
 cell or without an index array

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..d08bfae 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -979,7 +979,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From a9ed9d98953e773dc585de0c1f6a08bd57c05011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 10/85] fix: value counts of mapped arrays with non-numeric
 values

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index d08bfae..3e1e72e 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -1058,7 +1058,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
                     missing_keys.append(x)
             value_counts = np.vstack((value_counts, np.full((len(missing_keys), value_counts.shape[1]), 0)))
             mapped_uniques = np.concatenate((mapped_uniques, np.array(missing_keys)))
-        nan_mask = np.isnan(mapped_uniques)
+        nan_mask = pd.isnull(mapped_uniques)
         if dropna:
             value_counts = value_counts[~nan_mask]
             mapped_uniques = mapped_uniques[~nan_mask]
-- 
2.43.0


From 13d7176a2dcc613a3399d9be201a1f618f29f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 11/85] fix: top and bottom n of a mapped array respect
 group_by

---
 vectorbt/records/mapped_array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 3e1e72e..beb99a5 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -653,14 +653,14 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
         return dispatch.bottom_n_mapped_mask(self.values, col_map, n, engine=engine)
 
     @cached_method
-    def top_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
+    def top_n(self: MappedArrayT, n: int, group_by: tp.GroupByLike = None, **kwargs) -> MappedArrayT:
         """Filter top N elements from each column/group."""
-        return self.apply_mask(self.top_n_mask(n), **kwargs)
+        return self.apply_mask(self.top_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)
 
     @cached_method
-    def bottom_n(self: MappedArrayT, n: int, **kwargs) -> MappedArrayT:
+    def bottom_n(self: MappedArrayT, n: int, group_by: tp.GroupByLike = None, **kwargs) -> MappedArrayT:
         """Filter bottom N elements from each column/group."""
-        return self.apply_mask(self.bottom_n_mask(n), **kwargs)
+        return self.apply_mask(self.bottom_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)
 
     @cached_method
     def is_expandable(
-- 
2.43.0


From 00cf6283227c90883945eaaea2364e8c8cac46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 12/85] fix: reducing a mapped array without values to arrays
 uses the fill value instead of undefined variables

---
 vectorbt/records/nb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vectorbt/records/nb.py b/vectorbt/records/nb.py
index 4bab696..c4bb172 100644
--- a/vectorbt/records/nb.py
+++ b/vectorbt/records/nb.py
@@ -580,6 +580,7 @@ def reduce_mapped_to_array_nb(
     `reduce_func_nb` same as for `reduce_mapped_nb` but should return an array."""
     col_idxs, col_lens = col_map
     col_start_idxs = np.cumsum(col_lens) - col_lens
+    col0, idxs0 = 0, col_idxs[:0]
     for col in range(col_lens.shape[0]):
         col_len = col_lens[col]
         if col_len > 0:
@@ -589,7 +590,8 @@ def reduce_mapped_to_array_nb(
 
     col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
     out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
-    out[:, col0] = col_out
+    if len(idxs0) > 0:
+        out[:, col0] = col_out
 
     for col in range(col0 + 1, col_lens.shape[0]):
         col_len = col_lens[col]
@@ -618,6 +620,7 @@ def reduce_mapped_to_idx_array_nb(
         Must return integers or raise an exception."""
     col_idxs, col_lens = col_map
     col_start_idxs = np.cumsum(col_lens) - col_lens
+    col0, idxs0 = 0, col_idxs[:0]
     for col in range(col_lens.shape[0]):
         col_len = col_lens[col]
         if col_len > 0:
@@ -627,7 +630,8 @@ def reduce_mapped_to_idx_array_nb(
 
     col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
     out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
-    out[:, col0] = idx_arr[idxs0][col_out]
+    if len(idxs0) > 0:
+        out[:, col0] = idx_arr[idxs0][col_out]
 
     for col in range(col0 + 1, col_lens.shape[0]):
         col_len = col_lens[col]
-- 
2.43.0


From b9aed8ffb5b775dc98ad378bf76243e5458dee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 13/85] fix: describing a grouped mapped array with grouping
 disabled

---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index beb99a5..935d3ab 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -979,7 +979,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd(ignore_index=True).describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True, group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From 206c5f0be75176cd641b70316cc81fce7c41f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 14/85] fix: a drawdown still running when the series ends in
 NaN is recorded as active

---
 rust/src/generic.rs    | 90 +++++++++++++++++++++++-------------------
 vectorbt/generic/nb.py | 59 ++++++++++++++-------------
 2 files changed, 81 insertions(+), 68 deletions(-)

diff --git a/rust/src/generic.rs b/rust/src/generic.rs
index d79823b..652267c 100644
--- a/rust/src/generic.rs
+++ b/rust/src/generic.rs
@@ -1936,6 +1936,8 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
             let mut valley_idx = -1i64;
             let mut peak_val = unsafe { *src.get_unchecked(col) };
             let mut valley_val = peak_val;
+            let mut last_idx = -1i64;
+            let mut last_val = peak_val;
             for i in 0..nrows {
                 let cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
                 if !cur_val.is_nan() {
@@ -1971,23 +1973,25 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
                         valley_val = cur_val;
                         valley_idx = i as i64;
                     }
-                    if i == nrows - 1 && drawdown_started {
-                        out.push(DrawdownRecord {
-                            id: ddidx,
-                            col: col as i64,
-                            peak_idx,
-                            start_idx: peak_idx + 1,
-                            valley_idx,
-                            end_idx: i as i64,
-                            peak_val,
-                            valley_val,
-                            end_val: cur_val,
-                            status: DRAWDOWN_ACTIVE,
-                        });
-                        ddidx += 1;
-                    }
+                    last_idx = i as i64;
+                    last_val = cur_val;
                 }
             }
+            if drawdown_started {
+                out.push(DrawdownRecord {
+                    id: ddidx,
+                    col: col as i64,
+                    peak_idx,
+                    start_idx: peak_idx + 1,
+                    valley_idx,
+                    end_idx: last_idx,
+                    peak_val,
+                    valley_val,
+                    end_val: last_val,
+                    status: DRAWDOWN_ACTIVE,
+                });
+                ddidx += 1;
+            }
         }
         return out;
     }
@@ -1998,6 +2002,8 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
         let mut valley_idx = -1i64;
         let mut peak_val = col_view[0];
         let mut valley_val = col_view[0];
+        let mut last_idx = -1i64;
+        let mut last_val = col_view[0];
         let mut store_record = false;
         let mut status = -1i64;
         for i in 0..nrows {
@@ -2020,32 +2026,34 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
                     valley_val = cur_val;
                     valley_idx = i as i64;
                 }
-                if i == nrows - 1 && drawdown_started {
-                    drawdown_started = false;
-                    store_record = true;
-                    status = DRAWDOWN_ACTIVE;
-                }
-                if store_record {
-                    out.push(DrawdownRecord {
-                        id: ddidx,
-                        col: col as i64,
-                        peak_idx,
-                        start_idx: peak_idx + 1,
-                        valley_idx,
-                        end_idx: i as i64,
-                        peak_val,
-                        valley_val,
-                        end_val: cur_val,
-                        status,
-                    });
-                    ddidx += 1;
-                    peak_idx = i as i64;
-                    valley_idx = i as i64;
-                    peak_val = cur_val;
-                    valley_val = cur_val;
-                    store_record = false;
-                    status = -1;
-                }
+                last_idx = i as i64;
+                last_val = cur_val;
+            }
+            if i == nrows - 1 && drawdown_started {
+                drawdown_started = false;
+                store_record = true;
+                status = DRAWDOWN_ACTIVE;
+            }
+            if store_record {
+                out.push(DrawdownRecord {
+                    id: ddidx,
+                    col: col as i64,
+                    peak_idx,
+                    start_idx: peak_idx + 1,
+                    valley_idx,
+                    end_idx: last_idx,
+                    peak_val,
+                    valley_val,
+                    end_val: last_val,
+                    status,
+                });
+                ddidx += 1;
+                peak_idx = last_idx;
+                valley_idx = last_idx;
+                peak_val = last_val;
+                valley_val = last_val;
+                store_record = false;
+                status = -1;
             }
         }
     }
diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..b64bed0 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1854,6 +1854,8 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_idx = -1
         peak_val = ts[0, col]
         valley_val = ts[0, col]
+        last_idx = -1
+        last_val = ts[0, col]
         store_record = False
         status = -1
 
@@ -1886,33 +1888,36 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
                             valley_val = cur_val
                             valley_idx = i
 
-                if i == ts.shape[0] - 1 and drawdown_started:
-                    # If still running, mark for save
-                    drawdown_started = False
-                    store_record = True
-                    status = DrawdownStatus.Active
-
-                if store_record:
-                    # Save drawdown to the records
-                    out[ddidx]["id"] = ddidx
-                    out[ddidx]["col"] = col
-                    out[ddidx]["peak_idx"] = peak_idx
-                    out[ddidx]["start_idx"] = peak_idx + 1
-                    out[ddidx]["valley_idx"] = valley_idx
-                    out[ddidx]["end_idx"] = i
-                    out[ddidx]["peak_val"] = peak_val
-                    out[ddidx]["valley_val"] = valley_val
-                    out[ddidx]["end_val"] = cur_val
-                    out[ddidx]["status"] = status
-                    ddidx += 1
-
-                    # Reset running vars for a new drawdown
-                    peak_idx = i
-                    valley_idx = i
-                    peak_val = cur_val
-                    valley_val = cur_val
-                    store_record = False
-                    status = -1
+                last_idx = i
+                last_val = cur_val
+
+            if i == ts.shape[0] - 1 and drawdown_started:
+                # If still running, mark for save
+                drawdown_started = False
+                store_record = True
+                status = DrawdownStatus.Active
+
+            if store_record:
+                # Save drawdown to the records
+                out[ddidx]["id"] = ddidx
+                out[ddidx]["col"] = col
+                out[ddidx]["peak_idx"] = peak_idx
+                out[ddidx]["start_idx"] = peak_idx + 1
+                out[ddidx]["valley_idx"] = valley_idx
+                out[ddidx]["end_idx"] = last_idx
+                out[ddidx]["peak_val"] = peak_val
+                out[ddidx]["valley_val"] = valley_val
+                out[ddidx]["end_val"] = last_val
+                out[ddidx]["status"] = status
+                ddidx += 1
+
+                # Reset running vars for a new drawdown
+                peak_idx = last_idx
+                valley_idx = last_idx
+                peak_val = last_val
+                valley_val = last_val
+                store_record = False
+                status = -1
 
     return out[:ddidx]
 
-- 
2.43.0


From 10326d194e2d8596bc4366ebf2a4508f3f3b1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 15/85] fix: normalized overlapping coverage of ranges without
 any steps is NaN instead of a division by zero

---
 vectorbt/generic/nb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index b64bed0..693883e 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1772,7 +1772,9 @@ def range_coverage_nb(
                 temp[start_idx_arr[ridx] : end_idx_arr[ridx]] += 1
         if overlapping:
             if normalize:
-                out[col] = np.sum(temp > 1) / np.sum(temp > 0)
+                covered = np.sum(temp > 0)
+                if covered > 0:
+                    out[col] = np.sum(temp > 1) / covered
             else:
                 out[col] = np.sum(temp > 1)
         else:
-- 
2.43.0


From d0f5708429fc57e58fa0bc2389c45ca2ad3da932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 16/85] fix: ewm_mean equals pandas for non-adjusted weights
 with gaps whatever the engine and wrapping arguments

---
 rust/src/generic.rs           | 8 ++++++++
 vectorbt/generic/accessors.py | 2 --
 vectorbt/generic/nb.py        | 3 +++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/rust/src/generic.rs b/rust/src/generic.rs
index 652267c..4536ad3 100644
--- a/rust/src/generic.rs
+++ b/rust/src/generic.rs
@@ -1279,6 +1279,8 @@ pub(crate) fn ewm_mean_1d(a: &[f64], span: usize, minp: usize, adjust: bool) ->
             old_wt *= old_wt_factor;
             if is_observation {
                 if weighted_avg != cur {
+                    // pandas normalizes the weights after a gap
+                    let new_wt = if !adjust && com == 1.0 { 1.0 - old_wt } else { new_wt };
                     weighted_avg = ((old_wt * weighted_avg) + (new_wt * cur)) / (old_wt + new_wt);
                 }
                 if adjust {
@@ -1332,6 +1334,12 @@ pub(crate) fn ewm_mean_2d_c(a: ArrayView2<'_, f64>, span: usize, minp: usize, ad
                 old_wt[col] *= old_wt_factor;
                 if is_observation {
                     if weighted_avg[col] != cur {
+                        // pandas normalizes the weights after a gap
+                        let new_wt = if !adjust && com == 1.0 {
+                            1.0 - old_wt[col]
+                        } else {
+                            new_wt
+                        };
                         weighted_avg[col] =
                             ((old_wt[col] * weighted_avg[col]) + (new_wt * cur)) / (old_wt[col] + new_wt);
                     }
diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 23da0db..6477599 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -455,8 +455,6 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
     ) -> tp.SeriesFrame:  # pragma: no cover
         """See `vectorbt.generic.dispatch.ewm_mean`."""
         engine = engine if engine is not None else self.engine
-        if not adjust and int(pd.__version__.split(".")[0]) >= 3 and wrap_kwargs is None:
-            return self.obj.ewm(span=span, min_periods=minp, adjust=adjust).mean()
         out = dispatch.ewm_mean(self.to_2d_array(), span, minp=minp, adjust=adjust, engine=engine)
         return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))
 
diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 693883e..0c3b385 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -903,6 +903,9 @@ def ewm_mean_1d_nb(a: tp.Array1d, span: int, minp: int = 0, adjust: bool = False
             if is_observation:
                 # avoid numerical errors on constant series
                 if weighted_avg != cur:
+                    if not adjust and com == 1:
+                        # pandas normalizes the weights after a gap
+                        new_wt = 1.0 - old_wt
                     weighted_avg = ((old_wt * weighted_avg) + (new_wt * cur)) / (old_wt + new_wt)
                 if adjust:
                     old_wt += new_wt
-- 
2.43.0


From 4a50a0950c5ecb3a5cf4278794b1982c800b81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 17/85] fix: rolling mean of booleans and small integers, of
 all-NaN windows with minp=0, and after large values

---
 vectorbt/generic/nb.py | 44 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 0c3b385..427ef99 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -718,33 +718,39 @@ def rolling_max_nb(a: tp.Array2d, window: int, minp: tp.Optional[int] = None) ->
 def rolling_mean_1d_nb(a: tp.Array1d, window: int, minp: tp.Optional[int] = None) -> tp.Array1d:
     """Return rolling mean.
 
-    Numba equivalent to `pd.Series(a).rolling(window, min_periods=minp).mean()`."""
+    Numba equivalent to `pd.Series(a).rolling(window, min_periods=minp).mean()`.
+
+    Uses Kahan summation for numerical stability."""
     if minp is None:
         minp = window
     if minp > window:
         raise ValueError("minp must be <= window")
     out = np.empty_like(a, dtype=np.float64)
-    cumsum_arr = np.zeros_like(a)
-    cumsum = 0
-    nancnt_arr = np.zeros_like(a)
-    nancnt = 0
+    window_sum = 0.0
+    window_len = 0
+    compensation_add = 0.0
+    compensation_remove = 0.0
     for i in range(a.shape[0]):
-        if np.isnan(a[i]):
-            nancnt = nancnt + 1
-        else:
-            cumsum = cumsum + a[i]
-        nancnt_arr[i] = nancnt
-        cumsum_arr[i] = cumsum
-        if i < window:
-            window_len = i + 1 - nancnt
-            window_cumsum = cumsum
-        else:
-            window_len = window - (nancnt - nancnt_arr[i - window])
-            window_cumsum = cumsum - cumsum_arr[i - window]
-        if window_len < minp:
+        if i >= window and not np.isnan(a[i - window]):
+            y = -compensation_remove - a[i - window]
+            t = window_sum + y
+            compensation_remove = t - window_sum - y
+            window_sum = t
+            window_len = window_len - 1
+            if window_len == 0:
+                window_sum = 0.0
+                compensation_add = 0.0
+                compensation_remove = 0.0
+        if not np.isnan(a[i]):
+            y = a[i] - compensation_add
+            t = window_sum + y
+            compensation_add = t - window_sum - y
+            window_sum = t
+            window_len = window_len + 1
+        if window_len < minp or window_len == 0:
             out[i] = np.nan
         else:
-            out[i] = window_cumsum / window_len
+            out[i] = window_sum / window_len
     return out
 
 
-- 
2.43.0


From 5eb4797049fcf5fcdb2299fa0d4d3f13ccf4e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 18/85] fix: expanding mean and std with more minimum periods
 than rows return NaN

---
 vectorbt/generic/nb.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 427ef99..5bf91cc 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1086,13 +1086,15 @@ def expanding_mean_1d_nb(a: tp.Array1d, minp: int = 1) -> tp.Array1d:
     """Return expanding mean.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).mean()`."""
-    return rolling_mean_1d_nb(a, a.shape[0], minp=minp)
+    window = a.shape[0] if minp is None else max(a.shape[0], minp)
+    return rolling_mean_1d_nb(a, window, minp=minp)
 
 
 @njit(cache=True)
 def expanding_mean_nb(a: tp.Array2d, minp: int = 1) -> tp.Array2d:
     """2-dim version of `expanding_mean_1d_nb`."""
-    return rolling_mean_nb(a, a.shape[0], minp=minp)
+    window = a.shape[0] if minp is None else max(a.shape[0], minp)
+    return rolling_mean_nb(a, window, minp=minp)
 
 
 @njit(cache=True)
@@ -1100,13 +1102,15 @@ def expanding_std_1d_nb(a: tp.Array1d, minp: int = 1, ddof: int = 0) -> tp.Array
     """Return expanding standard deviation.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).std(ddof=ddof)`."""
-    return rolling_std_1d_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    window = a.shape[0] if minp is None else max(a.shape[0], minp)
+    return rolling_std_1d_nb(a, window, minp=minp, ddof=ddof)
 
 
 @njit(cache=True)
 def expanding_std_nb(a: tp.Array2d, minp: int = 1, ddof: int = 0) -> tp.Array2d:
     """2-dim version of `expanding_std_1d_nb`."""
-    return rolling_std_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    window = a.shape[0] if minp is None else max(a.shape[0], minp)
+    return rolling_std_nb(a, window, minp=minp, ddof=ddof)
 
 
 # ############# Apply functions ############# #
-- 
2.43.0


From b81b8ac29bdd67516f7d06cb5dab266b0414b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 19/85] fix: shifting by a negative number of rows reads inside
 the array

---
 vectorbt/generic/nb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 5bf91cc..d31177e 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -237,7 +237,7 @@ def _bshift_1d_nb(arr, n, fill_value):
     def impl(arr, n, fill_value):
         out = np.empty(arr.shape[0], dtype=dtype)
         for i in range(out.shape[0]):
-            if i + n <= out.shape[0] - 1:
+            if 0 <= i + n <= out.shape[0] - 1:
                 out[i] = arr[i + n]
             else:
                 out[i] = fill_value
@@ -313,7 +313,7 @@ def _fshift_1d_nb(arr, n, fill_value):
     def impl(arr, n, fill_value):
         out = np.empty(arr.shape[0], dtype=dtype)
         for i in range(out.shape[0]):
-            if i - n >= 0:
+            if 0 <= i - n <= out.shape[0] - 1:
                 out[i] = arr[i - n]
             else:
                 out[i] = fill_value
-- 
2.43.0


From 08919aa5124c1da8a444a5d6d5a31cef2e7dd1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 20/85] fix: differences and percentage changes over zero or
 negative steps, and of small integers

---
 vectorbt/generic/nb.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index d31177e..d69a20d 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -375,9 +375,13 @@ def diff_1d_nb(a: tp.Array1d, n: int = 1) -> tp.Array1d:
     """Return the 1-th discrete difference.
 
     Numba equivalent to `pd.Series(a).diff()`."""
-    out = np.empty_like(a, dtype=np.float64)
-    out[:n] = np.nan
-    out[n:] = a[n:] - a[:-n]
+    out = np.full(a.shape, np.nan, dtype=np.float64)
+    values = a.astype(np.float64)
+    shift = min(abs(n), a.shape[0])
+    if n >= 0:
+        out[shift:] = values[shift:] - values[: a.shape[0] - shift]
+    else:
+        out[: a.shape[0] - shift] = values[: a.shape[0] - shift] - values[shift:]
     return out
 
 
@@ -395,9 +399,13 @@ def pct_change_1d_nb(a: tp.Array1d, n: int = 1) -> tp.Array1d:
     """Return the percentage change.
 
     Numba equivalent to `pd.Series(a).pct_change()`."""
-    out = np.empty_like(a, dtype=np.float64)
-    out[:n] = np.nan
-    out[n:] = a[n:] / a[:-n] - 1
+    out = np.full(a.shape, np.nan, dtype=np.float64)
+    values = a.astype(np.float64)
+    shift = min(abs(n), a.shape[0])
+    if n >= 0:
+        out[shift:] = values[shift:] / values[: a.shape[0] - shift] - 1
+    else:
+        out[: a.shape[0] - shift] = values[: a.shape[0] - shift] / values[shift:] - 1
     return out
 
 
-- 
2.43.0


From 85a53b1521ad3441a02bd0bf4844289909321e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 21/85] fix: value counts of non-numeric series and frames

---
 vectorbt/generic/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 6477599..5fcba47 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -1251,7 +1251,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
                 mapping = self.wrapper.columns
             mapping = to_mapping(mapping)
         engine = engine if engine is not None else self.engine
-        codes, uniques = pd.factorize(self.obj.values.flatten(), sort=False, use_na_sentinel=False)
+        codes, uniques = pd.factorize(np.asarray(self.obj.values).flatten(), sort=False, use_na_sentinel=False)
         codes = codes.reshape(self.wrapper.shape_2d)
         group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
         value_counts = dispatch.value_counts(codes, len(uniques), group_lens, engine=engine)
@@ -1264,7 +1264,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
                     missing_keys.append(x)
             value_counts = np.vstack((value_counts, np.full((len(missing_keys), value_counts.shape[1]), 0)))
             uniques = np.concatenate((uniques, np.array(missing_keys)))
-        nan_mask = np.isnan(uniques)
+        nan_mask = pd.isnull(uniques)
         if dropna:
             value_counts = value_counts[~nan_mask]
             uniques = uniques[~nan_mask]
-- 
2.43.0


From 87e0c82f6d92088b7122f4d59fa71dd5aa8adc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 22/85] fix: sorting the unique values of value counts with
 missing values

---
 vectorbt/generic/accessors.py    | 4 +++-
 vectorbt/records/mapped_array.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 5fcba47..e01a4f0 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -1269,7 +1269,9 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
             value_counts = value_counts[~nan_mask]
             uniques = uniques[~nan_mask]
         if sort_uniques:
-            new_indices = uniques.argsort(kind="stable")
+            nan_mask = pd.isnull(uniques)
+            new_indices = np.flatnonzero(~nan_mask)[uniques[~nan_mask].argsort(kind="stable")]
+            new_indices = np.concatenate((new_indices, np.flatnonzero(nan_mask)))
             value_counts = value_counts[new_indices]
             uniques = uniques[new_indices]
         value_counts_sum = value_counts.sum(axis=1)
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 935d3ab..ad9260d 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -1063,7 +1063,9 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             value_counts = value_counts[~nan_mask]
             mapped_uniques = mapped_uniques[~nan_mask]
         if sort_uniques:
-            new_indices = mapped_uniques.argsort(kind="stable")
+            nan_mask = pd.isnull(mapped_uniques)
+            new_indices = np.flatnonzero(~nan_mask)[mapped_uniques[~nan_mask].argsort(kind="stable")]
+            new_indices = np.concatenate((new_indices, np.flatnonzero(nan_mask)))
             value_counts = value_counts[new_indices]
             mapped_uniques = mapped_uniques[new_indices]
         value_counts_sum = value_counts.sum(axis=1)
-- 
2.43.0


From 191286bd86e5c08c6a4c92a2ef4323ed89574ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 23/85] fix: column-wise generic methods keep the columns of a
 grouped accessor

---
 vectorbt/generic/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/decorators.py b/vectorbt/generic/decorators.py
index 01d884c..2608239 100644
--- a/vectorbt/generic/decorators.py
+++ b/vectorbt/generic/decorators.py
@@ -55,7 +55,7 @@ def attach_nb_methods(config: Config) -> WrapperFuncT:
                 inspect.signature(_func).bind(*args, **kwargs)
 
                 a = _func(*args, **kwargs)
-                wrap_kwargs = merge_dicts(_default_wrap_kwargs, wrap_kwargs)
+                wrap_kwargs = merge_dicts(dict(group_by=False), _default_wrap_kwargs, wrap_kwargs)
                 if _is_reducing:
                     return self.wrapper.wrap_reduced(a, **wrap_kwargs)
                 return self.wrapper.wrap(a, **wrap_kwargs)
-- 
2.43.0


From d44e143b1a4983031c5c4ac56f3f8d0ee8e6cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 24/85] fix: resampling with closed or label arguments labels
 the bins as pandas does

---
 vectorbt/generic/accessors.py | 2 +-
 vectorbt/returns/accessors.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index e01a4f0..e204907 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -677,7 +677,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
         resampled_arr = np.full((resampled.ngroups, self.to_2d_array().shape[1]), np.nan)
         resampled_obj = self.wrapper.wrap(
             resampled_arr,
-            index=resampled.asfreq().index,
+            index=resampled.size().index,
             group_by=False,
             **merge_dicts({}, wrap_kwargs),
         )
diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..e1c9dea 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -313,7 +313,7 @@ class ReturnsAccessor(GenericAccessor):
         resampled_arr = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
         resampled_obj = self.wrapper.wrap(
             resampled_arr,
-            index=resampled.asfreq().index,
+            index=resampled.size().index,
             group_by=False,
             **merge_dicts({}, wrap_kwargs),
         )
-- 
2.43.0


From 330074eaf320a611d2b6ebdc59c51decfb10ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 25/85] fix: mapped arrays of signal indices and ranks keep the
 grouping of the accessor

---
 vectorbt/signals/accessors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..1b2cd80 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1516,12 +1516,16 @@ class SignalsAccessor(GenericAccessor):
         """Get a mapped array of signal position ranks.
 
         See `SignalsAccessor.pos_rank`."""
+        if group_by is None:
+            group_by = self.wrapper.grouper.group_by
         return self.pos_rank(as_mapped=True, group_by=group_by, **kwargs)
 
     def partition_pos_rank_mapped(self, group_by: tp.GroupByLike = None, **kwargs) -> MappedArray:
         """Get a mapped array of partition position ranks.
 
         See `SignalsAccessor.partition_pos_rank`."""
+        if group_by is None:
+            group_by = self.wrapper.grouper.group_by
         return self.partition_pos_rank(as_mapped=True, group_by=group_by, **kwargs)
 
     # ############# Index ############# #
@@ -1631,7 +1635,10 @@ class SignalsAccessor(GenericAccessor):
         indices = np.tile(indices, (1, len(self.wrapper.columns)))
         indices = reshape_fns.soft_to_ndim(indices, self.wrapper.ndim)
         indices[~self.obj.values] = np.nan
-        return self.wrapper.wrap(indices).vbt.to_mapped(dropna=True, dtype=np.int64, group_by=group_by, **kwargs)
+        if group_by is None:
+            group_by = self.wrapper.grouper.group_by
+        indices = self.wrapper.wrap(indices, group_by=False)
+        return indices.vbt.to_mapped(dropna=True, dtype=np.int64, group_by=group_by, **kwargs)
 
     def total(self, wrap_kwargs: tp.KwargsLike = None, group_by: tp.GroupByLike = None) -> tp.MaybeSeries:
         """Total number of True values in each column/group."""
-- 
2.43.0


From 43720f59c50afcf74fbd545cafcec4b04e9e41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 26/85] fix: partition rate passes its keyword arguments on

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 1b2cd80..c87a128 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1669,8 +1669,8 @@ class SignalsAccessor(GenericAccessor):
         **kwargs,
     ) -> tp.MaybeSeries:
         """`SignalsAccessor.total_partitions` divided by `SignalsAccessor.total` in each column/group."""
-        total_partitions = reshape_fns.to_1d_array(self.total_partitions(group_by=group_by, *kwargs))
-        total = reshape_fns.to_1d_array(self.total(group_by=group_by, *kwargs))
+        total_partitions = reshape_fns.to_1d_array(self.total_partitions(group_by=group_by, **kwargs))
+        total = reshape_fns.to_1d_array(self.total(group_by=group_by))
         wrap_kwargs = merge_dicts(dict(name_or_index="partition_rate"), wrap_kwargs)
         return self.wrapper.wrap_reduced(total_partitions / total, group_by=group_by, **wrap_kwargs)
 
-- 
2.43.0


From 3b9bbd10286484c24f0994f838c5418db1edab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 27/85] fix: random entries and exits with zero signals and
 custom waits

---
 vectorbt/signals/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index a73da58..33d548e 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -447,6 +447,8 @@ def generate_rand_enex_nb(
     else:
         for col in range(shape[1]):
             _n = flex_select_auto_nb(ns, 0, col, True)
+            if _n == 0:
+                continue
             if _n == 1:
                 entry_idx = np.random.randint(0, shape[0] - exit_wait)
                 entries[entry_idx, col] = True
-- 
2.43.0


From 4a63daec41bd4e9df9c619cf6ee50a80353f60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 28/85] fix: random signals accept one probability per row of a
 series

---
 vectorbt/signals/accessors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index c87a128..e184aa9 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -546,7 +546,7 @@ class SignalsAccessor(GenericAccessor):
             n = np.broadcast_to(n, shape[1])
             result = dispatch.generate_rand(shape, n, seed=seed, engine=engine)
         elif prob is not None:
-            prob = broadcast_to_shape(prob, shape, np.float64)
+            prob = (broadcast_to_shape if flex_2d else broadcast_2d_to_shape)(prob, shape, np.float64)
             result = dispatch.generate_rand_by_prob(shape, prob, pick_first, flex_2d, seed=seed, engine=engine)
         else:
             raise ValueError("At least n or prob should be set")
@@ -646,8 +646,8 @@ class SignalsAccessor(GenericAccessor):
                 engine=engine,
             )
         elif entry_prob is not None and exit_prob is not None:
-            entry_prob = broadcast_to_shape(entry_prob, shape, np.float64)
-            exit_prob = broadcast_to_shape(exit_prob, shape, np.float64)
+            entry_prob = (broadcast_to_shape if flex_2d else broadcast_2d_to_shape)(entry_prob, shape, np.float64)
+            exit_prob = (broadcast_to_shape if flex_2d else broadcast_2d_to_shape)(exit_prob, shape, np.float64)
             entries, exits = dispatch.generate_rand_enex_by_prob(
                 shape,
                 entry_prob,
@@ -713,7 +713,8 @@ class SignalsAccessor(GenericAccessor):
         if prob is not None:
             obj, prob = reshape_fns.broadcast(self.obj, prob, keep_raw=[False, True])
             entries_2d = reshape_fns.to_2d_array(obj)
-            prob = broadcast_to_shape(prob, entries_2d.shape, np.float64)
+            broadcast_func = broadcast_to_shape if obj.ndim == 2 else broadcast_2d_to_shape
+            prob = broadcast_func(prob, entries_2d.shape, np.float64)
             exits = dispatch.generate_rand_ex_by_prob(
                 entries_2d,
                 prob,
-- 
2.43.0


From 87b88d793b64ccd98ac2217423066aae6a18fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 29/85] fix: stop exits write stop price and type to their own
 arrays, not to read-only or caller-owned ones

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index e184aa9..d367104 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1073,8 +1073,8 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        stop_price_out = np.array(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64, order="C")
+        stop_type_out = np.array(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64, order="C")
 
         # Perform generation
         if chain:
-- 
2.43.0


From 39b7eeac8dd9445967742ade9e1aa361ff0bf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 30/85] fix: grouped normalized average index of a single row
 is undefined, as without groups

---
 vectorbt/signals/accessors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index d367104..527549e 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1621,6 +1621,7 @@ class SignalsAccessor(GenericAccessor):
                 group_by = self.wrapper.grouper.group_by
             col_total = self.total(group_by=False)
             norm_avg_index *= col_total
+            col_total = col_total.where(norm_avg_index.notna(), 0)
             norm_avg_index = norm_avg_index.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
             group_total = col_total.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
             norm_avg_index /= group_total
-- 
2.43.0


From aedd76e112d4484febd4e4aa2eac37cd4c36aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 31/85] fix: on-balance volume leaves out the volume of bars
 with an unchanged close

---
 rust/src/indicators.rs    | 4 ++++
 vectorbt/indicators/nb.py | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/src/indicators.rs b/rust/src/indicators.rs
index 2b77c47..321f0f5 100644
--- a/rust/src/indicators.rs
+++ b/rust/src/indicators.rs
@@ -590,6 +590,8 @@ pub(crate) fn obv_custom_1d_into(close: &[f64], volume: &[f64], out: &mut [f64])
     for i in 0..len {
         signed_volume[i] = if i > 0 && close[i] < close[i - 1] {
             -volume[i]
+        } else if i > 0 && close[i] == close[i - 1] {
+            0.0
         } else {
             volume[i]
         };
@@ -621,6 +623,8 @@ pub fn obv_custom_rs<'py>(
                     let idx = row_start + col;
                     let volume = if row > 0 && close_src[idx] < close_src[prev_start + col] {
                         -volume_src[idx]
+                    } else if row > 0 && close_src[idx] == close_src[prev_start + col] {
+                        0.0
                     } else {
                         volume_src[idx]
                     };
diff --git a/vectorbt/indicators/nb.py b/vectorbt/indicators/nb.py
index 8d3385d..dfa30f7 100644
--- a/vectorbt/indicators/nb.py
+++ b/vectorbt/indicators/nb.py
@@ -304,6 +304,8 @@ def atr_apply_nb(
 @njit(cache=True)
 def obv_custom_nb(close: tp.Array2d, volume_ts: tp.Array2d) -> tp.Array2d:
     """Custom calculation function for `vectorbt.indicators.basic.OBV`."""
-    obv = generic_nb.set_by_mask_mult_nb(volume_ts, close < generic_nb.fshift_nb(close, 1), -volume_ts)
+    prev_close = generic_nb.fshift_nb(close, 1)
+    obv = generic_nb.set_by_mask_mult_nb(volume_ts, close < prev_close, -volume_ts)
+    obv = generic_nb.set_by_mask_nb(obv, close == prev_close, 0)
     obv = generic_nb.nancumsum_nb(obv)
     return obv
-- 
2.43.0


From 403c5bfce841438e068ddce629ef9fe08a4d54d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 32/85] fix: in-place outputs passed partially or per column of
 a series

---
 vectorbt/indicators/factory.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 34b4d94..1dc6af3 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1629,7 +1629,8 @@ def run_pipeline(
         input_list = list(map(np.asarray, bc_input_list))
     if len(in_output_idxs) > 0:
         # Separate inputs and in-place outputs
-        in_output_list = input_list[-len(in_output_idxs) :]
+        for i, in_output in zip(in_output_idxs, input_list[-len(in_output_idxs) :]):
+            in_output_list[i] = in_output
         input_list = input_list[: -len(in_output_idxs)]
 
     # Reshape input shape
@@ -1726,17 +1727,15 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
-    j = 0
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[j], requirements="W")
+            in_output_wide = reshape_fns.to_2d(np.require(in_output_list[i], requirements="W"))
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
-            j += 1
         else:
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
-- 
2.43.0


From 47a6ce95327eee7ace58e5c3d6ff3a6437a5cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 33/85] fix: in-place outputs written to pandas objects reach
 the indicator

---
 vectorbt/indicators/factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 1dc6af3..e37ae88 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1923,6 +1923,12 @@ def run_pipeline(
             output_list, other_list = _split_output(output)
 
         # In-place outputs are treated as outputs from here
+        if keep_pd:
+            # Pandas objects hold their own data, so write it back to the in-place outputs
+            n_cols = input_shape_2d[1] if len(in_output_list) > 0 else 0
+            for in_output_wide, in_outputs in zip(in_output_list, in_output_list_ready):
+                for i, in_output in enumerate(in_outputs):
+                    in_output_wide[:, i * n_cols : (i + 1) * n_cols] = reshape_fns.to_2d_array(in_output)
         output_list = in_output_list + output_list
 
         # Prepare raw
-- 
2.43.0


From 142352ffe08db2f7d68f9a4aaa545637f7a9af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 34/85] fix: hiding every parameter level of several parameter
 values

---
 vectorbt/indicators/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index e37ae88..bf4b9f1 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1323,6 +1323,10 @@ def build_columns(
             input_columns = index_fns.tile_index(input_columns, n_param_values, ignore_default=ignore_default)
         stacked_columns = index_fns.stack_indexes([*shown_param_indexes, input_columns], **kwargs)
         return param_indexes, stacked_columns
+    if not per_column:
+        n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
+        if n_param_values > 1:
+            input_columns = index_fns.tile_index(input_columns, n_param_values, ignore_default=ignore_default)
     return param_indexes, input_columns
 
 
-- 
2.43.0


From b2a1c47d512bbed02a7b4a725bddd67701cbe52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 35/85] fix: running combinations does not change the list of
 hidden parameters

---
 vectorbt/indicators/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index bf4b9f1..7afafb9 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3038,6 +3038,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 if _hide_params is None:
                     _hide_params = []
+                else:
+                    _hide_params = list(_hide_params)
                 if _short_names is None:
                     _short_names = [f"{short_name}_{str(i + 1)}" for i in range(_r)]
 
-- 
2.43.0


From 80764a5d14114379e5260bbae9d67526d8e418eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 36/85] fix: selecting columns of an indicator by a boolean
 parameter

---
 vectorbt/base/indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index ca08cfc..1590cb6 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -10,7 +10,7 @@ one can manipulate complex classes with dozens of pandas objects using a single
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_object_dtype, is_string_dtype
+from pandas.api.types import is_bool_dtype, is_object_dtype, is_string_dtype
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -171,6 +171,8 @@ class ParamLoc(LocBase):
             # The original mapper isn't touched
             # Normalize numpy scalars to Python scalars for consistent string representation
             mapper = mapper.apply(_normalize_numpy_scalars).astype(str)
+        elif is_bool_dtype(mapper.dtype):
+            mapper = mapper.astype(str)  # select by value, not by mask
         self._mapper = mapper
         self._level_name = level_name
 
-- 
2.43.0


From 8560f362446170f8ad2f80ebad59b2cdb8e27aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 37/85] fix: selecting columns of an indicator by a parameter
 whose level is hidden

---
 vectorbt/base/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index 1590cb6..b604584 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -223,7 +223,7 @@ class ParamLoc(LocBase):
                 if self.level_name is not None:
                     if checks.is_frame(new_obj):
                         if isinstance(new_obj.columns, pd.MultiIndex):
-                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
+                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name, strict=False)
             return new_obj
 
         return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)
-- 
2.43.0


From 0ff728f07a781f37a7c5a758bebd0c151fd301d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 38/85] fix: running combinations with default parameters whose
 levels are not hidden

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 7afafb9..23815c7 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3050,8 +3050,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 # Hide params
                 for i, pname in enumerate(param_names):
-                    if _hide_default and isinstance(param_list[i], Default):
-                        if pname not in _hide_params:
+                    if isinstance(param_list[i], Default):
+                        if _hide_default and pname not in _hide_params:
                             _hide_params.append(pname)
                         param_list[i] = param_list[i].value
                 checks.assert_len_equal(param_list, param_names)
-- 
2.43.0


From dea03d0ebcac78bd9c0715760c9590fd39c484b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 39/85] fix: resampling returns with empty bins

---
 vectorbt/returns/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index e1c9dea..b779f54 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -306,7 +306,7 @@ class ReturnsAccessor(GenericAccessor):
         engine = engine if engine is not None else self.engine
         returns_2d = self.to_2d_array()
         resampled = self.obj.resample(freq, **kwargs)
-        out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
+        out = np.full((len(resampled.indices), returns_2d.shape[1]), np.nan)
         for i, idxs in enumerate(resampled.indices.values()):
             out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
         out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
-- 
2.43.0


From 986fa1c4a59b80823654147b0a36646190f583b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 40/85] fix: exit generators skip all later entries after an
 entry that is never left

---
 rust/src/signals.rs    | 16 ++++++++++++++++
 vectorbt/signals/nb.py |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/rust/src/signals.rs b/rust/src/signals.rs
index 9070e68..31084ba 100644
--- a/rust/src/signals.rs
+++ b/rust/src/signals.rs
@@ -174,6 +174,10 @@ pub(crate) fn generate_rand_ex_by_prob<R: Rng + ?Sized>(
                         nrows
                     };
                     if to_i > from_i {
+                        if skip_until_exit && !until_next {
+                            // No exit up to the end: skip all later entries
+                            last_exit_i = nrows as i64;
+                        }
                         for idx in from_i..to_i {
                             if rng.random::<f64>() < unsafe { *prob_src.get_unchecked(idx * prob_cols + col) } {
                                 exits[[idx, col]] = true;
@@ -202,6 +206,10 @@ pub(crate) fn generate_rand_ex_by_prob<R: Rng + ?Sized>(
                     nrows
                 };
                 if to_i > from_i {
+                    if skip_until_exit && !until_next {
+                        // No exit up to the end: skip all later entries
+                        last_exit_i = nrows as i64;
+                    }
                     for idx in from_i..to_i {
                         if rng.random::<f64>() < prob.get(idx, col) {
                             exits[[idx, col]] = true;
@@ -644,6 +652,10 @@ pub(crate) fn generate_stop_ex(
                     nrows
                 };
                 if to_i > from_i {
+                    if skip_until_exit && !until_next {
+                        // No exit up to the end: skip all later entries
+                        last_exit_i = nrows as i64;
+                    }
                     if pick_first {
                         if let Some(idx) = stop_choice_first(from_i, to_i, col, ts, stop, trailing, wait) {
                             exits[[idx, col]] = true;
@@ -944,6 +956,10 @@ pub(crate) fn generate_ohlc_stop_ex(
                         pick_first,
                     )?;
                     if hits.is_empty() {
+                        if skip_until_exit && !until_next {
+                            // No exit up to the end: skip all later entries
+                            last_exit_i = nrows as i64;
+                        }
                         entry_i_opt = next_entry_i;
                         continue;
                     }
diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index 33d548e..dd3f60a 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -140,6 +140,9 @@ def generate_ex_nb(
                 # Run the UDF
                 idxs = exit_choice_func_nb(from_i, to_i, col, *args)
                 if len(idxs) == 0:
+                    if skip_until_exit and not until_next:
+                        # No exit up to the end: skip all later entries
+                        last_exit_i = entries.shape[0]
                     continue
                 if pick_first:
                     first_i = idxs[0]
-- 
2.43.0


From a33ca2459c859fa04dcd3c0fc6d4c119ca4fa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 41/85] fix: renaming the level of a plain index mutated the
 passed index

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 7dad4c0..1fc9525 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -184,7 +184,7 @@ def rename_levels(index: tp.Index, name_dict: tp.Dict[str, tp.Any], strict: bool
                 raise KeyError(f"Level '{k}' not found")
         else:
             if index.name == k:
-                index.name = v
+                index = index.rename(v)
             elif strict:
                 raise KeyError(f"Level '{k}' not found")
     return index
-- 
2.43.0


From 102c8f61a157ca77dc4bc94553dfb26d5fa59fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 42/85] fix: aligning indexes picked undefined rows for missing
 level combinations

---
 vectorbt/base/index_fns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1fc9525..94ef948 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -272,6 +272,8 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
         index2 = pd.MultiIndex.from_arrays([index2])
     if pd.Index.equals(index1, index2):
         return pd.IndexSlice[:]
+    index1 = index1.remove_unused_levels()
+    index2 = index2.remove_unused_levels()
 
     # Build map between levels in first and second index
     mapper = {}
@@ -315,6 +317,8 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
     unique_indices = np.unique(stacked, axis=0, return_inverse=True)[1]
     unique1 = unique_indices[: len(index1)]
     unique2 = unique_indices[len(index1) :]
+    if not np.isin(unique2, unique1).all():
+        raise ValueError("Second index contains combinations of values not in first index")
     return pd.IndexSlice[_align_index_to_nb(unique1, unique2)]
 
 
-- 
2.43.0


From 72fbd3571084470fe5c69e74a257e23847b08941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 43/85] fix: unstacking an unsorted multi-index into a frame
 mixed up its labels

---
 vectorbt/base/reshape_fns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/reshape_fns.py b/vectorbt/base/reshape_fns.py
index 6b9aa3c..c8c5915 100644
--- a/vectorbt/base/reshape_fns.py
+++ b/vectorbt/base/reshape_fns.py
@@ -936,8 +936,11 @@ def unstack_to_df(
             column_levels = 1
 
     # Build new index and column hierarchies
-    new_index = index_fns.select_levels(arg.index, index_levels).unique()
-    new_columns = index_fns.select_levels(arg.index, column_levels).unique()
+    # Labels must come in the same (sorted) order as the values in unstack_to_array
+    new_index = index_fns.select_levels(sr.index, index_levels)
+    new_index = new_index[np.unique(new_index.to_numpy(), return_index=True)[1]]
+    new_columns = index_fns.select_levels(sr.index, column_levels)
+    new_columns = new_columns[np.unique(new_columns.to_numpy(), return_index=True)[1]]
 
     # Unstack and post-process
     unstacked = unstack_to_array(sr, levels=(index_levels, column_levels))
-- 
2.43.0


From fa5ec8e8c29a09a900a164f1bc108673364eecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 44/85] fix: index levels with integer names were confused with
 level positions

---
 vectorbt/base/index_fns.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 94ef948..92f516c 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -67,6 +67,24 @@ def index_from_values(values: tp.ArrayLikeSequence, name: tp.Optional[str] = Non
     return pd.Index(value_names, name=name)
 
 
+def get_level_at(index: pd.MultiIndex, i: int) -> tp.Index:
+    """Get the level of a multi-index by its position.
+
+    In contrast to `pd.MultiIndex.get_level_values`, an integer is never taken for the name of a level."""
+    return index.set_names(list(range(index.nlevels))).get_level_values(i).rename(index.names[i])
+
+
+def drop_levels_at(index: pd.MultiIndex, positions: tp.Sequence[int]) -> tp.Index:
+    """Drop the levels of a multi-index by their positions.
+
+    In contrast to `pd.MultiIndex.droplevel`, an integer is never taken for the name of a level."""
+    names = [index.names[i] for i in range(index.nlevels) if i not in positions]
+    new_index = index.set_names(list(range(index.nlevels))).droplevel(list(positions))
+    if isinstance(new_index, pd.MultiIndex):
+        return new_index.set_names(names)
+    return new_index.rename(names[0])
+
+
 def repeat_index(index: tp.IndexLike, n: int, ignore_default: tp.Optional[bool] = None) -> tp.Index:
     """Repeat each element in `index` `n` times.
 
@@ -130,7 +148,7 @@ def stack_indexes(
             levels.append(to_any_index(index))
         else:
             for j in range(index.nlevels):
-                levels.append(index.get_level_values(j))
+                levels.append(get_level_at(index, j))
 
     new_index = pd.MultiIndex.from_arrays(levels)
     if drop_duplicates:
@@ -209,11 +227,11 @@ def drop_redundant_levels(index: tp.Index) -> tp.Index:
     for i in range(index.nlevels):
         if len(index) > 1 and len(index.levels[i]) == 1 and index.levels[i].name is None:
             levels_to_drop.append(i)
-        elif checks.is_default_index(index.get_level_values(i)):
+        elif checks.is_default_index(get_level_at(index, i)):
             levels_to_drop.append(i)
     # Remove redundant levels only if there are some non-redundant levels left
     if len(levels_to_drop) < index.nlevels:
-        return index.droplevel(levels_to_drop)
+        return drop_levels_at(index, levels_to_drop)
     return index
 
 
@@ -240,12 +258,12 @@ def drop_duplicate_levels(index: tp.Index, keep: tp.Optional[str] = None) -> tp.
     else:
         r = range(index.nlevels - 1, -1, -1)  # loop backwards
     for i in r:
-        level = (index.levels[i].name, tuple(index.get_level_values(i).to_numpy().tolist()))
+        level = (index.levels[i].name, tuple(get_level_at(index, i).to_numpy().tolist()))
         if level not in levels:
             levels.append(level)
         else:
             levels_to_drop.append(i)
-    return index.droplevel(levels_to_drop)
+    return drop_levels_at(index, levels_to_drop)
 
 
 @njit(cache=True)
@@ -296,7 +314,7 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
     factorized = []
     for k, v in mapper.items():
         factorized.append(
-            pd.factorize(pd.concat((index1.get_level_values(k).to_series(), index2.get_level_values(v).to_series())))[
+            pd.factorize(pd.concat((get_level_at(index1, k).to_series(), get_level_at(index2, v).to_series())))[
                 0
             ],
         )
-- 
2.43.0


From 0f37d2766732d7760a3b8d8d9e3434fe80e0fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 45/85] fix: regrouping with an index into another number of
 groups kept the old dimensions

---
 vectorbt/base/column_grouper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/column_grouper.py b/vectorbt/base/column_grouper.py
index 23e0a28..53ab04d 100644
--- a/vectorbt/base/column_grouper.py
+++ b/vectorbt/base/column_grouper.py
@@ -221,7 +221,7 @@ class ColumnGrouper(Configured):
         if group_by is None or (group_by is False and self.group_by is None):
             return False
         if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
-            return len(group_by) != len(self.group_by)
+            return len(group_by.unique()) != len(self.group_by.unique())
         return True
 
     def check_group_by(
-- 
2.43.0


From 4ffbea7e15c8b4d9cabd75f267142c3185f5ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 46/85] fix: wrapping with fillna wrote into the passed array

---
 vectorbt/base/array_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 6b9a267..09e0845 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -581,6 +581,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             arr = np.asarray(arr)
             checks.assert_ndim(arr, (1, 2))
             if fillna is not None:
+                arr = arr.copy()  # never write into the passed array
                 arr[pd.isnull(arr)] = fillna
             arr = reshape_fns.soft_to_ndim(arr, self.ndim)
             checks.assert_shape_equal(arr, index, axis=(0, 0))
@@ -653,6 +654,7 @@ class ArrayWrapper(Configured, PandasIndexer):
 
             arr = np.asarray(arr)
             if fillna is not None:
+                arr = arr.copy()  # never write into the passed array
                 arr[pd.isnull(arr)] = fillna
             if arr.ndim == 0:
                 # Scalar per Series/DataFrame
-- 
2.43.0


From f718d9ce257971e680d5ced4e45997f756aad751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 47/85] fix: filling a reduced object wrapped the values as a
 full one

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 09e0845..0aa0085 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -718,7 +718,7 @@ class ArrayWrapper(Configured, PandasIndexer):
     def fill_reduced(self, fill_value: tp.Scalar, group_by: tp.GroupByLike = None, **kwargs) -> tp.SeriesFrame:
         """Fill a reduced Series/DataFrame."""
         _self = self.resolve(group_by=group_by)
-        return _self.wrap(np.full(_self.shape_2d[1], fill_value), **kwargs)
+        return _self.wrap_reduced(np.full(_self.shape_2d[1], fill_value), **kwargs)
 
 
 WrappingT = tp.TypeVar("WrappingT", bound="Wrapping")
-- 
2.43.0


From 8861600fa86947ba2bbf6fa2823dee7b6cf13b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 48/85] fix: selecting one row of a frame accessor failed

---
 vectorbt/base/accessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/accessors.py b/vectorbt/base/accessors.py
index 1737390..6a41ba4 100644
--- a/vectorbt/base/accessors.py
+++ b/vectorbt/base/accessors.py
@@ -127,7 +127,7 @@ class BaseAccessor(Wrapping):
     def indexing_func(self: BaseAccessorT, pd_indexing_func: tp.PandasIndexingFunc, **kwargs) -> BaseAccessorT:
         """Perform indexing on `BaseAccessor`."""
         new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
-        new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs, :][:, col_idxs], group_by=False)
+        new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs][..., col_idxs], group_by=False)
         if checks.is_series(new_obj):
             return self.replace(cls_=self.sr_accessor_cls, obj=new_obj, wrapper=new_wrapper)
         return self.replace(cls_=self.df_accessor_cls, obj=new_obj, wrapper=new_wrapper)
-- 
2.43.0


From 8e171c4f48d8625c993c49f263b604fe53503386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 49/85] fix: selecting one row of a frame accessor of returns
 failed

---
 vectorbt/returns/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index b779f54..50ec85e 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -205,10 +205,10 @@ class ReturnsAccessor(GenericAccessor):
     def indexing_func(self: ReturnsAccessorT, pd_indexing_func: tp.PandasIndexingFunc, **kwargs) -> ReturnsAccessorT:
         """Perform indexing on `ReturnsAccessor`."""
         new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
-        new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs, :][:, col_idxs], group_by=False)
+        new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs][..., col_idxs], group_by=False)
         if self.benchmark_rets is not None:
             new_benchmark_rets = new_wrapper.wrap(
-                to_2d_array(self.benchmark_rets)[idx_idxs, :][:, col_idxs],
+                to_2d_array(self.benchmark_rets)[idx_idxs][..., col_idxs],
                 group_by=False,
             )
         else:
-- 
2.43.0


From a10081b7da6dad432710e8af8415a7bd46bc2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 50/85] fix: month-start frequency inferred from an index was
 read as a millisecond

---
 vectorbt/base/array_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 0aa0085..bd05178 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -89,6 +89,7 @@ import warnings
 
 import numpy as np
 import pandas as pd
+from pandas.tseries.frequencies import to_offset
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -448,7 +449,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             if self.index.freq is not None:
                 return freq_to_timedelta(self.index.freq)
             if self.index.inferred_freq is not None:
-                return freq_to_timedelta(self.index.inferred_freq)
+                return freq_to_timedelta(to_offset(self.index.inferred_freq))
         return freq
 
     def to_timedelta(
-- 
2.43.0


From b052d96f09e64755d03db12c8b127bac40d93785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 51/85] fix: Data.from_data required download_kwargs, so data
 could not be merged as documented

---
 vectorbt/data/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..f71b81d 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -300,9 +300,11 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
         tz_convert: tp.Optional[tp.TimezoneLike],
         missing_index: str,
         missing_columns: str,
-        download_kwargs: dict,
+        download_kwargs: tp.KwargsLike = None,
         **kwargs,
     ) -> None:
+        if download_kwargs is None:
+            download_kwargs = {}
         Wrapping.__init__(
             self,
             wrapper,
-- 
2.43.0


From a7dd5b20862f75594bcfce01ec930416851c4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 52/85] fix: creating data changed the frequency of the passed
 index

---
 vectorbt/data/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index f71b81d..b9926a2 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -530,7 +530,9 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                         v = v.tz_localize(to_timezone(tz_localize))
                 if tz_convert is not None:
                     v = v.tz_convert(to_timezone(tz_convert))
-                v.index.freq = v.index.inferred_freq
+                new_index = v.index.copy(deep=True)  # never modify the passed index
+                new_index.freq = new_index.inferred_freq
+                v = v.set_axis(new_index, axis=0)
             data[k] = v
 
         # Align index and columns
-- 
2.43.0


From 9a1c9f7703979f4c48031f3759a46920f7eb14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 53/85] fix: aligning series with different names kept only one
 of them

---
 vectorbt/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index b9926a2..21eaf04 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -451,7 +451,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             if isinstance(v, pd.Series):
                 v = v.to_frame()
             v = v.reindex(columns=columns)
-            if not multiple_columns:
+            if not multiple_columns and len(columns) == 1:
                 v = v[columns[0]]
                 if name_is_none:
                     v = v.rename(None)
-- 
2.43.0


From b756b0cb84f6fe30ba2b8f40e6a335c68481b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 54/85] fix: updating a named series with an unnamed one lost
 its name

---
 vectorbt/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 21eaf04..8266fd6 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -658,6 +658,8 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             if isinstance(self.data[k], pd.Series):
                 if isinstance(v, pd.DataFrame):
                     v = v[self.data[k].name]
+                else:
+                    v = v.rename(self.data[k].name)
             else:
                 v = v[self.data[k].columns]
             v = pd.concat((self.data[k], v), axis=0)
-- 
2.43.0


From 14335d8d74acf771274a9436ea1359417e7bdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 55/85] fix: indexing grouped or column-only data selected
 other cells than its wrapper

---
 vectorbt/data/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 8266fd6..7a37215 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -331,8 +331,17 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
 
     def indexing_func(self: DataT, pd_indexing_func: tp.PandasIndexingFunc, **kwargs) -> DataT:
         """Perform indexing on `Data`."""
-        new_wrapper = pd_indexing_func(self.wrapper)
-        new_data = {k: pd_indexing_func(v) for k, v in self.data.items()}
+        new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
+        new_data = {}
+        for k, v in self.data.items():
+            if isinstance(v, pd.DataFrame):
+                v = v.iloc[idx_idxs, col_idxs]
+            else:
+                v = v.iloc[idx_idxs]
+            v.index = new_wrapper.index
+            if isinstance(v, pd.DataFrame):
+                v.columns = new_wrapper.columns
+            new_data[k] = v
         return self.replace(wrapper=new_wrapper, data=new_data)
 
     @property
-- 
2.43.0


From 95dc3b61d99256aa0e18cd973163a06ba911a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 56/85] fix: GBMData could not be updated from a single row or
 with another S0

---
 vectorbt/data/custom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vectorbt/data/custom.py b/vectorbt/data/custom.py
index 64dee86..e8244c5 100644
--- a/vectorbt/data/custom.py
+++ b/vectorbt/data/custom.py
@@ -172,12 +172,12 @@ class GBMData(SyntheticData):
         `**kwargs` will override keyword arguments passed to `GBMData.download_symbol`."""
         download_kwargs = self.select_symbol_kwargs(symbol, self.download_kwargs)
         download_kwargs["start"] = self.data[symbol].index[-1]
-        _ = download_kwargs.pop("S0", None)
-        S0 = self.data[symbol].iloc[-2]
+        if len(self.data[symbol].index) > 1:
+            download_kwargs["S0"] = self.data[symbol].iloc[-2]
         _ = download_kwargs.pop("T", None)
         download_kwargs["seed"] = None
         kwargs = merge_dicts(download_kwargs, kwargs)
-        return self.download_symbol(symbol, S0=S0, **kwargs)
+        return self.download_symbol(symbol, **kwargs)
 
 
 class YFData(Data):
-- 
2.43.0


From ce875af0303bc6405a6de173785a1842cf0ca37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 57/85] fix: checking whether a dictionary is a sequence raised
 KeyError

---
 vectorbt/utils/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..ff5bef8 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -64,7 +64,7 @@ def is_sequence(arg: tp.Any) -> bool:
         len(arg)
         arg[0:0]
         return True
-    except TypeError:
+    except (TypeError, KeyError):  # mappings may accept a slice as key
         return False
 
 
-- 
2.43.0


From 267e3623ae0044b0a38f8f8f3d0711fc7521dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 58/85] fix: concatenating non-float data of one symbol failed
 or changed its type

---
 vectorbt/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 7a37215..3eff711 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -693,7 +693,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
         if len(self.symbols) > 1:
             new_data = {c: pd.DataFrame(index=index, columns=pd.Index(self.symbols, name=level_name)) for c in columns}
         else:
-            new_data = {c: pd.Series(index=index, name=self.symbols[0]) for c in columns}
+            new_data = {c: pd.Series(index=index, name=self.symbols[0], dtype=object) for c in columns}
         for c in columns:
             for s in self.symbols:
                 if isinstance(self.data[s], pd.Series):
-- 
2.43.0


From dcc927421028bf7cc7e2721ea42f0bc7df032d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 59/85] fix: jobs run in the background ignored the deadline
 set by until

---
 vectorbt/utils/schedule_.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index d79f60a..c6b73ea 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -27,12 +27,20 @@ class CancelledError(asyncio.CancelledError):
 class AsyncJob(Job):
     async def async_run(self) -> tp.Any:
         """Async `Job.run`."""
+        if self._is_overdue(datetime.now()):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
+
         logger.info("Running job %s", self)
         ret = self.job_func()
         if inspect.isawaitable(ret):
             ret = await ret
         self.last_run = datetime.now()
         self._schedule_next_run()
+
+        if self._is_overdue(self.next_run):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         return ret
 
 
-- 
2.43.0


From 6ca03ef461d8572e870a5917a764e37ec02b7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 60/85] fix: jobs with an interval of type timedelta could not
 be scheduled

---
 vectorbt/utils/schedule_.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index c6b73ea..f9117c5 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -218,6 +218,12 @@ class ScheduleManager:
                 unit = "days"
         if unit is None and start_day is None:
             unit = "seconds"
+        if isinstance(interval, timedelta):
+            if unit != "seconds" or start_day is not None:
+                raise ValueError("Interval of type timedelta cannot be combined with a unit, weekday, or time")
+            interval = interval.total_seconds()
+            if interval.is_integer():
+                interval = int(interval)
 
         job = self.scheduler.every(interval)
         if unit is not None:
-- 
2.43.0


From 0f22660c7db1c7a89fedfec3b127070a05e91605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 61/85] fix: job tags given as a list or set raised TypeError

---
 vectorbt/utils/schedule_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index f9117c5..ba72d27 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -7,6 +7,7 @@ import asyncio
 import inspect
 import logging
 import time
+from collections.abc import Iterable
 from datetime import datetime, timedelta, time as dt_time
 
 from schedule import Scheduler, Job, CancelJob
@@ -244,7 +245,7 @@ class ScheduleManager:
         if to is not None:
             job = job.to(to)
         if tags is not None:
-            if not isinstance(tags, tuple):
+            if isinstance(tags, str) or not isinstance(tags, Iterable):
                 tags = (tags,)
             job = job.tag(*tags)
 
-- 
2.43.0


From bfdd2edba484e12774c22f676201c27880fa8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 62/85] fix: deep equality ignored additional items, keys and
 dimensions of the second object

---
 vectorbt/utils/checks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index ff5bef8..8247c74 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -297,6 +297,7 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
     def _check_array(assert_method):
         __kwargs = _select_kwargs(assert_method, kwargs)
         safe_assert(arg1.dtype == arg2.dtype)
+        safe_assert(arg1.shape == arg2.shape)
         if arg1.dtype.fields is not None:
             for field in arg1.dtype.names:
                 assert_method(arg1[field], arg2[field], **__kwargs)
@@ -323,11 +324,13 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
-                    safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
+                    safe_assert(is_deep_equal(arg1[i], arg2[i], check_exact=check_exact, **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(arg1.keys() == arg2.keys())
                 for k in arg1.keys():
-                    safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
+                    safe_assert(is_deep_equal(arg1[k], arg2[k], check_exact=check_exact, **kwargs))
             else:
                 try:
                     if arg1 == arg2:
-- 
2.43.0


From 011e2af71ecf6941fc5a96372368a54eda4ecf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 63/85] fix: merging dicts on the same keys added keys, merging
 a single dict failed

---
 vectorbt/utils/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..ee5aa57 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
@@ -188,9 +188,11 @@ def merge_dicts(
         if not to_dict or copy_mode != "shallow":
             # to_dict already does a shallow copy
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
+    if len(dicts) == 1:
+        return dicts[0]
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From ab00b735118917ebff6d234ca679cc37707af5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 64/85] fix: configs with keys other than strings could not be
 loaded

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index ee5aa57..54cbf87 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -268,7 +268,7 @@ class PickleableDict(Pickleable, dict):
         for k, v in config.items():
             if isinstance(v, DumpTuple):
                 config[k] = v.cls.loads(v.dumps, **kwargs)
-        return cls(**config)
+        return cls(config)
 
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance."""
-- 
2.43.0


From 86d488d3a154651a23f6ef31c4f89c5429b67cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 65/85] fix: read-only and frozen configs could be changed by
 setdefault, in-place union and nested updates

---
 vectorbt/utils/config.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 54cbf87..bf33570 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -501,6 +501,16 @@ class Config(PickleableDict, Documented):
         if self.as_attrs_:
             self.__dict__[k] = v
 
+    def setdefault(self, k: str, v: tp.Any = None, force: bool = False) -> tp.Any:
+        """Return the value by the key, setting it first if the key is missing."""
+        if k not in self:
+            self.__setitem__(k, v, force=force)
+        return self[k]
+
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        self.update(other, nested=False)
+        return self
+
     def __delattr__(self, k: str) -> None:
         if self.as_attrs_:
             self.__delitem__(k)
@@ -560,6 +570,8 @@ class Config(PickleableDict, Documented):
 
         See `update_dict`."""
         other = dict(*args, **kwargs)
+        if not force and self.readonly_ and len(other) > 0:
+            raise TypeError("Config is read-only")
         if nested is None:
             nested = self.nested_
         update_dict(self, other, nested=nested, force=force)
-- 
2.43.0


From 5e3f08afa9dfa2d260ce414a648309ed8ce5873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 66/85] fix: inequality of configs disagreed with equality,
 comparing with other objects failed

---
 vectorbt/utils/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index bf33570..3da690e 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -701,8 +701,13 @@ class Config(PickleableDict, Documented):
         self.update(loaded, nested=False, force=True)
 
     def __eq__(self, other: tp.Any) -> bool:
+        if not isinstance(other, dict):
+            return False
         return checks.is_deep_equal(dict(self), dict(other))
 
+    def __ne__(self, other: tp.Any) -> bool:
+        return not self == other
+
     def to_doc(self, with_params: bool = False, **kwargs) -> str:
         """Convert to a doc."""
         doc = self.__class__.__name__ + "(" + to_doc(dict(self), **kwargs) + ")"
-- 
2.43.0


From 28f119ae24678b501b69897e79a4928be71b7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 67/85] fix: copying a config replaced the initial content of
 the original

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 3da690e..bbc845b 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -614,7 +614,7 @@ class Config(PickleableDict, Documented):
 
         reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, copy_kwargs, reset_dct_copy_kwargs)
         reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
-        self.__dict__["_reset_dct_"] = reset_dct
+        self_copy.__dict__["_reset_dct_"] = reset_dct
 
         copy_kwargs = merge_dicts(self.copy_kwargs_, copy_kwargs)
         dct = copy_dict(dict(self), **copy_kwargs)
-- 
2.43.0


From a8c065c57b3d4e2663dde4a19dd1767ff795e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 68/85] fix: pickled configs, and objects and containers
 holding configs, could not be unpickled

---
 vectorbt/utils/config.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index bbc845b..006d485 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -279,6 +279,14 @@ class PickleableDict(Pickleable, dict):
 ConfigT = tp.TypeVar("ConfigT", bound="Config")
 
 
+def _restore_config(cls: tp.Type[ConfigT], dct: dict, attrs: dict) -> ConfigT:
+    """Restore a pickled config."""
+    config = cls.__new__(cls)
+    config.__dict__.update(attrs)
+    dict.update(config, dct)
+    return config
+
+
 class Config(PickleableDict, Documented):
     """Extends dict with config features such as nested updates, frozen keys/values, and pickling.
 
@@ -589,6 +597,10 @@ class Config(PickleableDict, Documented):
         self_copy.update(copy(dict(self)), nested=False, force=True)
         return self_copy
 
+    def __reduce__(self) -> tp.Tuple[tp.Callable, tp.Tuple]:
+        """Pickle along with the properties, which must be in place before any item is set."""
+        return _restore_config, (self.__class__, dict(self), dict(self.__dict__))
+
     def __deepcopy__(self: ConfigT, memo: tp.DictLike = None) -> ConfigT:
         """Deep operation, primarily used by `copy.deepcopy`.
 
-- 
2.43.0


From f642dcf8ce93efbaf68824d2bf6da8e239f115ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 69/85] fix: changed metrics and subplots of an object were
 lost when copying, indexing or saving it

---
 vectorbt/utils/config.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 006d485..dd29a42 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -777,11 +777,12 @@ class Configured(Pickleable, Documented):
     @property
     def writeable_attrs(self) -> tp.Set[str]:
         """Set of writeable attributes that will be saved/copied along with the config."""
-        return {
-            base_cls.writeable_attrs.__get__(self)
-            for base_cls in self.__class__.__bases__
-            if isinstance(base_cls, Configured)
-        }
+        attrs = set()
+        for base_cls in self.__class__.__mro__:
+            prop = base_cls.__dict__.get("writeable_attrs", None)
+            if isinstance(prop, property) and base_cls is not Configured:
+                attrs |= prop.fget(self)
+        return attrs
 
     def replace(
         self: ConfiguredT,
@@ -800,15 +801,16 @@ class Configured(Pickleable, Documented):
         new_config = self.config.merge_with(new_config, copy_mode=copy_mode_, nested=nested_)
         new_instance = cls_(**new_config)
         for attr in self.writeable_attrs:
+            if getattr(cls_, attr, None) is not getattr(self.__class__, attr, None):
+                continue  # the other class has its own defaults
             attr_obj = getattr(self, attr)
-            if isinstance(attr_obj, Config):
-                attr_obj = attr_obj.copy(copy_mode=copy_mode_, nested=nested_)
-            else:
-                if copy_mode_ is not None:
-                    if copy_mode_ == "hybrid":
-                        attr_obj = copy(attr_obj)
-                    elif copy_mode_ == "deep":
-                        attr_obj = deepcopy(attr_obj)
+            if copy_mode_ is not None:
+                if isinstance(attr_obj, Config):
+                    attr_obj = attr_obj.copy(copy_mode=copy_mode_, nested=nested_)
+                elif copy_mode_ == "hybrid":
+                    attr_obj = copy(attr_obj)
+                elif copy_mode_ == "deep":
+                    attr_obj = deepcopy(attr_obj)
             setattr(new_instance, attr, attr_obj)
         return new_instance
 
-- 
2.43.0


From 3a3244cb23f271fe4836fd99ae58f4c1c3f734c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 70/85] fix: changing the subplots of records or a mapped array
 changed them for the whole class

---
 vectorbt/records/base.py         | 1 +
 vectorbt/records/mapped_array.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vectorbt/records/base.py b/vectorbt/records/base.py
index 728beaa..e0fbc96 100644
--- a/vectorbt/records/base.py
+++ b/vectorbt/records/base.py
@@ -497,6 +497,7 @@ class Records(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, RecordsWithFields,
     ) -> None:
         Wrapping.__init__(self, wrapper, records_arr=records_arr, col_mapper=col_mapper, engine=engine, **kwargs)
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         # Check fields
         records_arr = np.asarray(records_arr)
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index ad9260d..f55f0c8 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -453,6 +453,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             **kwargs,
         )
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         mapped_arr = np.asarray(mapped_arr)
         col_arr = np.asarray(col_arr)
-- 
2.43.0


From bb883cc80432280166cda6978010c5203981e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 71/85] fix: caching conditions on a method failed for every
 property and ignored inherited methods

---
 vectorbt/utils/decorators.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38bf532..b441cf2 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -201,11 +201,9 @@ def should_cache(func_name: str, instance: object, func: tp.Optional[tp.Callable
             if instance is not cond.instance:
                 return start_rank
         if cond.func is not None:
-            if isinstance(cond.func, cached_property):  # cached_property
-                if func != cond.func.func:
-                    return start_rank
-            elif callable(cond.func) and hasattr(func, "func") and hasattr(cond.func, "func"):  # cached_method
-                if func.func != cond.func.func:
+            if isinstance(cond.func, cached_property) or (callable(cond.func) and hasattr(cond.func, "func")):
+                # cached_property or cached_method
+                if getattr(func, "func", func) != cond.func.func:
                     return start_rank
             elif isinstance(cond.func, str):
                 if func_name != cond.func:
@@ -409,10 +407,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = False, **flags) -> tp
                 # Ignores non-hashable instances
                 return func(instance, *args, **kwargs)
 
-            _func = None
-            if hasattr(instance, wrapper.name):
-                _func = getattr(instance, wrapper.name)
-            if not should_cache(wrapper.name, instance, func=_func, **wrapper.flags):
+            if not should_cache(wrapper.name, instance, func=wrapper, **wrapper.flags):
                 return func(instance, *args, **kwargs)
             cache = instance.__dict__
             cached_func = cache.get(wrapper.attrname, _NOT_FOUND)
-- 
2.43.0


From c5988e49894e67dbd57afe6613d9537317607d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 72/85] fix: methods cached with a number returned the result
 for the equal boolean and vice versa

---
 vectorbt/utils/decorators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index b441cf2..38a8c15 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -357,7 +357,7 @@ def custom_method(*args, **flags) -> tp.Union[tp.Callable, custom_methodT]:
     ```
     and
     ```pycon
-    >>> @cached_method(maxsize=128, typed=False, a=0, b=0)  # flags
+    >>> @cached_method(maxsize=128, typed=True, a=0, b=0)  # flags
     ... def user_function(): pass
     ```
     """
@@ -390,10 +390,11 @@ class cached_methodT(custom_methodT):
     def __call__(self, *args, **kwargs) -> tp.Any: ...
 
 
-def cached_method(*args, maxsize: int = 128, typed: bool = False, **flags) -> tp.Union[tp.Callable, cached_methodT]:
+def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.Union[tp.Callable, cached_methodT]:
     """Extends `custom_method` with caching.
 
-    Internally uses `functools.lru_cache`.
+    Internally uses `functools.lru_cache`. By default, arguments of different types are cached separately
+    since `group_by=0` (first level) has a different meaning than `group_by=False` (no grouping).
 
     Disables caching if `should_cache` yields False or a non-hashable object
     as argument has been passed.
-- 
2.43.0


From c13489e7ef0ff602e32bf1b65f8debbe081dd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 73/85] fix: overriding a cached property or method mixed up
 the results of the base class with its own

---
 vectorbt/utils/decorators.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38a8c15..0a721d0 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -306,6 +306,7 @@ class cached_property(custom_property):
 
     def __init__(self, func: tp.Callable, **flags) -> None:
         super().__init__(func, **flags)
+        self.owner = None
         self.lock = RLock()
 
     def clear_cache(self, instance: object) -> None:
@@ -315,11 +316,17 @@ class cached_property(custom_property):
 
     @property
     def attrname(self) -> str:
-        """Get name of cached attribute."""
-        return "__cached_" + self.name
+        """Get name of cached attribute.
+
+        Unique for each class that defines this property, such that an overridden property
+        can be accessed via `super()`."""
+        if self.owner is None:
+            return "__cached_" + self.name
+        return f"__cached_{self.owner.__module__}.{self.owner.__qualname__}.{self.name}"
 
     def __set_name__(self, owner: tp.Type, name: str) -> None:
         self.name = name
+        self.owner = owner
 
     def __get__(self, instance: object, owner: tp.Optional[tp.Type] = None) -> tp.Any:
         if instance is None:
@@ -445,7 +452,8 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
         wrapper.maxsize = maxsize
         wrapper.typed = typed
         wrapper.name = func.__name__
-        wrapper.attrname = "__cached_" + func.__name__
+        # Unique for each class that defines this method, such that an overridden method can be called via super()
+        wrapper.attrname = f"__cached_{func.__module__}.{func.__qualname__}"
         wrapper.lock = RLock()
         wrapper.clear_cache = clear_cache
 
-- 
2.43.0


From 02c455a37dde48ec3ac67c9a6a2244d303719c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 74/85] fix: converting datetime64 dropped the time of the day
 and failed for nanoseconds

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 3df2f67..5fee393 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -140,7 +140,7 @@ def to_tzaware_datetime(
     elif isinstance(dt_like, pd.Timestamp):
         dt = dt_like.to_pydatetime()
     elif isinstance(dt_like, np.datetime64):
-        dt = datetime.combine(dt_like.astype(datetime), time())
+        dt = pd.Timestamp(dt_like).to_pydatetime()
     else:
         dt = dt_like
 
-- 
2.43.0


From f04535e6dd8cb10c5e218094b5a7e26258b9908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 75/85] fix: datetimes in time zones with daylight saving time
 were shifted when parsed

---
 vectorbt/utils/datetime_.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 5fee393..26cfdc9 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -148,9 +148,14 @@ def to_tzaware_datetime(
         raise ValueError("Couldn't parse the datetime")
 
     if not is_tz_aware(dt):
-        dt = dt.replace(tzinfo=to_timezone(naive_tz))
-    else:
-        dt = dt.replace(tzinfo=to_timezone(dt.tzinfo))
+        naive_tz = to_timezone(naive_tz, to_py_timezone=False)
+        if hasattr(naive_tz, "localize"):
+            dt = naive_tz.localize(dt)
+        else:
+            dt = dt.replace(tzinfo=naive_tz)
+    if datetime_cfg["to_py_timezone"]:
+        # take the offset at that point in time and not the current one
+        dt = dt.replace(tzinfo=timezone(dt.utcoffset()))
     if tz is not None:
         dt = dt.astimezone(to_timezone(tz))
     return dt
-- 
2.43.0


From fff08dca177a6d2da74a70e3ea3f21a5dcd7ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 76/85] fix: conversion of datetimes to milliseconds was off by
 one due to floating-point errors

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 26cfdc9..69fde3e 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -163,7 +163,7 @@ def to_tzaware_datetime(
 
 def datetime_to_ms(dt: datetime) -> int:
     """Convert a datetime to milliseconds."""
-    return int(dt.timestamp() * 1000.0)
+    return (dt.astimezone(timezone.utc) - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(milliseconds=1)
 
 
 def interval_to_ms(interval: str) -> tp.Optional[int]:
-- 
2.43.0


From bbcf1f28e14f88c7d1167a8e0096116a12b24c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 77/85] fix: building ranges failed or was wrong for a single
 end and empty ranges

---
 vectorbt/utils/array_.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/array_.py b/vectorbt/utils/array_.py
index 354034b..01bdd81 100644
--- a/vectorbt/utils/array_.py
+++ b/vectorbt/utils/array_.py
@@ -50,7 +50,11 @@ def get_ranges_arr(starts: tp.ArrayLike, ends: tp.ArrayLike) -> tp.Array1d:
     ends_arr = np.asarray(ends)
     if ends_arr.ndim == 0:
         ends_arr = np.array([ends_arr])
-    starts_arr, end = np.broadcast_arrays(starts_arr, ends_arr)
+    starts_arr, ends_arr = np.broadcast_arrays(starts_arr, ends_arr)
+    nonempty = ends_arr > starts_arr
+    starts_arr, ends_arr = starts_arr[nonempty], ends_arr[nonempty]
+    if len(starts_arr) == 0:
+        return np.empty(0, dtype=int)
     counts = ends_arr - starts_arr
     counts_csum = counts.cumsum()
     id_arr = np.ones(counts_csum[-1], dtype=int)
-- 
2.43.0


From 284871ecc4c41b5057cd3cded2d2cb9378df1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 78/85] fix: substituting templates in place copied nested
 objects

---
 vectorbt/utils/template.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/template.py b/vectorbt/utils/template.py
index 685d3b6..321f842 100644
--- a/vectorbt/utils/template.py
+++ b/vectorbt/utils/template.py
@@ -233,18 +233,20 @@ def deep_substitute(
             if make_copy:
                 obj = copy(obj)
             for k, v in obj.items():
-                set_dict_item(obj, k, deep_substitute(v, mapping=mapping, safe=safe), force=True)
+                set_dict_item(
+                    obj, k, deep_substitute(v, mapping=mapping, safe=safe, make_copy=make_copy), force=True
+                )
             return obj
         if isinstance(obj, list):
             if make_copy:
                 obj = copy(obj)
             for i in range(len(obj)):
-                obj[i] = deep_substitute(obj[i], mapping=mapping, safe=safe)
+                obj[i] = deep_substitute(obj[i], mapping=mapping, safe=safe, make_copy=make_copy)
             return obj
         if isinstance(obj, (tuple, set, frozenset)):
             result = []
             for o in obj:
-                result.append(deep_substitute(o, mapping=mapping, safe=safe))
+                result.append(deep_substitute(o, mapping=mapping, safe=safe, make_copy=make_copy))
             if checks.is_namedtuple(obj):
                 return type(obj)(*result)
             return type(obj)(result)
-- 
2.43.0


From 13254fd461c678d048d692a532e03aeb4602fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 79/85] fix: mapping failed for categorical, nullable and time
 zone aware data

---
 vectorbt/utils/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/mapping.py b/vectorbt/utils/mapping.py
index 8983b64..6ccc200 100644
--- a/vectorbt/utils/mapping.py
+++ b/vectorbt/utils/mapping.py
@@ -94,7 +94,7 @@ def apply_mapping(
         if item is not None:
             if isinstance(x_type, pd.StringDtype) or str(x_type) == "str":
                 x_type = str
-            if np.dtype(x_type) == "O":
+            if isinstance(x_type, pd.api.extensions.ExtensionDtype) or np.dtype(x_type) == "O":
                 x_type = type(item)
         for y_type in ignore_type:
             if y_type is None:
-- 
2.43.0


From b5e8b2f9fd6fe09efcc70b7dfbe571c2f52b7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 80/85] fix: mapping to integers and missing values returned
 floats

---
 vectorbt/utils/mapping.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/vectorbt/utils/mapping.py b/vectorbt/utils/mapping.py
index 6ccc200..54cb752 100644
--- a/vectorbt/utils/mapping.py
+++ b/vectorbt/utils/mapping.py
@@ -129,6 +129,13 @@ def apply_mapping(
                 return x
         return new_mapping[x]
 
+    def convert_series(sr: tp.Series) -> tp.Series:
+        if na_sentinel is None:
+            # do not let pandas infer the data type, which would turn integers next to missing values into floats
+            out = pd.Series([convert_value(x) for x in sr], index=sr.index, name=sr.name, dtype=object)
+            return out.where(~out.isna(), None)
+        return sr.map(convert_value)
+
     if isinstance(obj, (tuple, list, set, frozenset)):
         result = [
             apply_mapping(
@@ -149,10 +156,7 @@ def apply_mapping(
             return obj
         if ignore_type is None or not compatible_types(obj.dtype, obj.item(0)):
             if obj.ndim == 1:
-                out = pd.Series(obj).map(convert_value)
-                if na_sentinel is None:
-                    out = out.astype(object).where(~out.isna(), None)
-                return out.to_numpy(dtype=object)
+                return convert_series(pd.Series(obj)).to_numpy(dtype=object)
             out = np.vectorize(convert_value, otypes=[object])(obj)
             if na_sentinel is None:
                 out[pd.isna(out)] = None
@@ -162,23 +166,15 @@ def apply_mapping(
         if obj.size == 0:
             return obj
         if ignore_type is None or not compatible_types(obj.dtype, obj.iloc[0]):
-            out = obj.map(convert_value)
-            if na_sentinel is None:
-                out = out.astype(object).where(~out.isna(), None)
-            return out
+            return convert_series(obj)
         return obj
     if isinstance(obj, pd.Index):
         if obj.size == 0:
             return obj
         if ignore_type is None or not compatible_types(obj.dtype, obj[0]):
-            out = obj.map(convert_value)
             if na_sentinel is None:
-                out = pd.Index(
-                    [None if pd.isna(value) else value for value in out.astype(object)],
-                    dtype=object,
-                    name=out.name,
-                )
-            return out
+                return pd.Index(convert_series(obj.to_series()).to_numpy(), dtype=object, name=obj.name)
+            return obj.map(convert_value)
         return obj
     if isinstance(obj, pd.DataFrame):
         if obj.size == 0:
@@ -186,10 +182,7 @@ def apply_mapping(
         series = []
         for sr_name, sr in obj.items():
             if ignore_type is None or not compatible_types(sr.dtype, sr.iloc[0]):
-                out = sr.map(convert_value)
-                if na_sentinel is None:
-                    out = out.astype(object).where(~out.isna(), None)
-                series.append(out)
+                series.append(convert_series(sr))
             else:
                 series.append(sr)
         return pd.concat(series, axis=1, keys=obj.columns)
-- 
2.43.0


From 5bd50352b9cf2bfb1f3ca2b902323804d27af815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 81/85] fix: selecting metrics and subplots by a tuple of tags
 failed

---
 vectorbt/generic/plots_builder.py | 4 +++-
 vectorbt/generic/stats_builder.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/plots_builder.py b/vectorbt/generic/plots_builder.py
index c23a5cc..8168ece 100644
--- a/vectorbt/generic/plots_builder.py
+++ b/vectorbt/generic/plots_builder.py
@@ -217,8 +217,10 @@ class PlotsBuilderMixin(metaclass=MetaPlotsBuilderMixin):
             tags = reself.plots_defaults["tags"]
         if isinstance(tags, str) and tags == "all":
             tags = None
-        if isinstance(tags, (str, tuple)):
+        if isinstance(tags, str):
             tags = [tags]
+        elif tags is not None:
+            tags = list(tags)
 
         # Bring to the same shape
         new_subplots = []
diff --git a/vectorbt/generic/stats_builder.py b/vectorbt/generic/stats_builder.py
index 0b0d463..77d4920 100644
--- a/vectorbt/generic/stats_builder.py
+++ b/vectorbt/generic/stats_builder.py
@@ -266,8 +266,10 @@ class StatsBuilderMixin(metaclass=MetaStatsBuilderMixin):
             tags = reself.stats_defaults.get("tags", "all")
         if isinstance(tags, str) and tags == "all":
             tags = None
-        if isinstance(tags, (str, tuple)):
+        if isinstance(tags, str):
             tags = [tags]
+        elif tags is not None:
+            tags = list(tags)
 
         # Bring to the same shape
         new_metrics = []
-- 
2.43.0


From a07cdd3384bda2d98f90fc000ce7ca8a47710e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 82/85] fix: wrapping a scalar as a reduced value returned an
 array of objects

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index bd05178..2bef8ea 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -659,7 +659,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 arr[pd.isnull(arr)] = fillna
             if arr.ndim == 0:
                 # Scalar per Series/DataFrame
-                return pd.Series(arr, dtype=dtype)[0]
+                return pd.Series(arr.reshape(1), dtype=dtype)[0]
             if arr.ndim == 1:
                 if _self.ndim == 1:
                     if arr.shape[0] == 1:
-- 
2.43.0


From 0424c2ab7909c4a6b6a6fe888b40c122a4807a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 83/85] fix: ranges between two arrays dropped grouping and
 frequency

---
 vectorbt/signals/accessors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 527549e..3d8ffd7 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1238,7 +1238,13 @@ class SignalsAccessor(GenericAccessor):
                 from_other=from_other,
                 engine=engine,
             )
-            wrapper = ArrayWrapper.from_obj(obj)
+            wrapper = ArrayWrapper.from_obj(obj, freq=self.wrapper.freq)
+            if (
+                wrapper.ndim == self.wrapper.ndim
+                and wrapper.index.equals(self.wrapper.index)
+                and wrapper.columns.equals(self.wrapper.columns)
+            ):
+                wrapper = self.wrapper  # keeps grouping
             to_attach = other if attach_other else obj
         kwargs.setdefault("engine", engine)
         return Ranges(wrapper, range_records, ts=to_attach if attach_ts else None, **kwargs).regroup(group_by)
-- 
2.43.0


From 49c6121318deb7d9106646c4b52dbe8564131579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 84/85] fix: overlap statistics of grouped signals ignored
 grouping

---
 vectorbt/signals/accessors.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 3d8ffd7..cc357eb 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1754,14 +1754,20 @@ class SignalsAccessor(GenericAccessor):
             ),
             total_overlapping=dict(
                 title="Total Overlapping",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.group_by if group_by is None else group_by
+                ),
                 check_silent_has_other=True,
                 tags=["signals", "other"],
             ),
             overlapping_rate=dict(
                 title="Overlapping Rate [%]",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by)
-                / (self | other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.group_by if group_by is None else group_by
+                )
+                / (self | other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.group_by if group_by is None else group_by
+                ),
                 post_calc_func=lambda self, out, settings: out * 100,
                 check_silent_has_other=True,
                 tags=["signals", "other"],
-- 
2.43.0


From 828e1f15799e78cfd30b1a9c5ff315cf45632235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 85/85] fix: logs, returns accessor and to_returns ignored the
 engine of their object

---
 vectorbt/generic/accessors.py | 1 +
 vectorbt/portfolio/base.py    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index e204907..c04ad7a 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -1500,6 +1500,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
 
     def to_returns(self, **kwargs) -> tp.SeriesFrame:
         """Get returns of this object."""
+        kwargs.setdefault("engine", self.engine)
         return self.obj.vbt.returns.from_value(self.obj, **kwargs).obj
 
     # ############# Crossover ############# #
diff --git a/vectorbt/portfolio/base.py b/vectorbt/portfolio/base.py
index 0f5fb81..054f1cc 100644
--- a/vectorbt/portfolio/base.py
+++ b/vectorbt/portfolio/base.py
@@ -4230,7 +4230,7 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
         """Get log records.
 
         See `vectorbt.portfolio.logs.Logs`."""
-        return Logs(self.wrapper, self.log_records, **kwargs).regroup(group_by)
+        return Logs(self.wrapper, self.log_records, engine=self.engine, **kwargs).regroup(group_by)
 
     @cached_property
     def entry_trades(self) -> EntryTrades:
@@ -4694,6 +4694,7 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
             returns = self.returns(group_by=group_by)
         if benchmark_rets is None:
             benchmark_rets = self.benchmark_returns(group_by=group_by)
+        kwargs.setdefault("engine", self.engine)
         return returns.vbt.returns(
             benchmark_rets=benchmark_rets,
             freq=freq,
-- 
2.43.0

