From 7fef825b7fff4c5c19cc7d18f4a5354d27a3c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 01/75] fix: duration of empty index is in hours

Mapping over an empty TimedeltaIndex keeps the timedelta dtype, so that the
duration of an empty index could not be calculated. As a consequence,
downsampling an averagable series without any full period raised.
---
 portfolyo/tools/duration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/duration.py b/portfolyo/tools/duration.py
index fd02fe6..99f16d7 100644
--- a/portfolyo/tools/duration.py
+++ b/portfolyo/tools/duration.py
@@ -55,7 +55,7 @@ def index(i: pd.DatetimeIndex) -> pd.Series:
         h = 1.0 if i.freq == "h" else 0.25
     else:
         # Individual calculations for non-fixed-duration frequencies.
-        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)
+        h = (tools_right.index(i) - i).total_seconds() / 3600
 
     return pd.Series(h, i, dtype="pint[h]").rename("duration")
 
-- 
2.43.0


From a604596aa0825107a4f44e8dbbc429530aaec476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 02/75] fix: downsampling to periods that start on a DST-change
 day

The start-of-day offset was added as an absolute timedelta, which results in the
wrong timestamp (and an error) if the first day of a month, quarter or year has a
DST-change, e.g. 2020-11-01 in America/New_York.
---
 portfolyo/tools/changefreq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..f888776 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -64,7 +64,9 @@ def _downsample_summable(s: pd.Series, freq: str) -> pd.Series:
     if target_vs_daily > 0:
         # workaround: (a) first downsample to days...
         s2 = s2.resample(freq).sum()
-        s2.index += offset  # ...(b) add the offset manually...
+        # ...(b) add the offset manually (to the wall-clock time, as the first day of the
+        # delivery period might have a DST-change)...
+        s2.index = (s2.index.tz_localize(None) + offset).tz_localize(s2.index.tz)
         s2.index.freq = freq  # ...(c) and set the frequency manually as well.
     return s2.rename(s.name)
 
-- 
2.43.0


From d5e89b13e845425140094c665c3bfd0d700432f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 03/75] fix: adding nested portfolio lines that overlap
 partially

Children that are present in only one of the operands were kept at their full
length, resulting in children with distinct indices and missing values in the
aggregate.
---
 portfolyo/core/pfline/arithmatic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..021f455 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -237,6 +237,13 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        # Keep only common rows, also for children that are present in only one of the operands.
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
+        pfl1, pfl2 = pfl1.loc[idx], pfl2.loc[idx]
         newchildren = {}  # collect children and add those with same name
         for name in set([*pfl1, *pfl2]):
             if name in pfl1 and name in pfl2:
-- 
2.43.0


From ff78e74c8a951e4815e523bae30bdcbe567c9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 04/75] fix: multiplication without overlap raises error

Multiplying a volume with a price portfolio line (or a portfolio line with a
dimensionless series) returned a portfolio line without any timestamps if the
operands did not overlap. Like the other operations, this now raises an error.
---
 portfolyo/core/pfline/arithmatic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 021f455..39d8083 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -268,6 +268,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if len(q.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
@@ -280,6 +284,10 @@ class Multiply:
 
     def flatpfline_and_series(pfl: NestedPfLine, s: pd.Series) -> NestedPfLine:
         df, s = tools.intersect.frames(pfl.df, s)
+        if len(df.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on data without any overlapping timestamps."
+            )
         newdf = pd.DataFrame({col: series * s for col, series in df.items()})
         if pfl.kind is Kind.COMPLETE:  # correction: in this case, keep original prices
             newdf["p"] = df["p"]
-- 
2.43.0


From 7e49658e16ba2230cee6f85f903270dba6398e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 05/75] fix: price of sum of complete portfolio lines

If one of the operands has revenue but no volume at a timestamp (e.g. after
subtracting an equal volume with a different price), its revenue was disregarded in
the price of the sum, so that price * volume was no longer equal to the revenue.
---
 portfolyo/core/pfline/arithmatic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 39d8083..166f7f5 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -229,10 +229,15 @@ class Add:
                 "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
             )
         if pfl1.kind is Kind.COMPLETE:
+            newdf["p"] = newdf["r"] / newdf["q"]
             # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
-            values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
-            weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            # (Not elsewhere, because revenue without volume has no price to be averaged.)
+            mask = np.isclose(newdf["q"].pint.m, 0)
+            if mask.any():
+                values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
+                weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
+                p = tools.wavg.dataframe(values, weights, axis=1)
+                newdf["p"] = newdf["p"].where(~mask, p)
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From c9a1c49bfd99aa16e7edae418d4c65126b855511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 06/75] fix: frequencies with multiple of quarter or year are
 not allowed

---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..fb8523b 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From e4e77fa5d4ebae80c33aa34eaa74ba143f69dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 07/75] fix: timestamps with seconds are not (quarter)hour
 boundaries

---
 portfolyo/tools/isboundary.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..3898a54 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -80,6 +80,10 @@ def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarr
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
 
+def _is_full_minute(ts: pd.Timestamp) -> bool:
+    return ts.second == 0 and ts.microsecond == 0 and ts.nanosecond == 0
+
+
 # TODO: see if we can remove usage of this function.
 def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     f"""Check if timestamp is a valid delivery period start (or end).
@@ -100,9 +104,9 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     """
     start_of_day = start_of_day or dt.time(0, 0)
     if freq == "15min":
-        return ts.minute % 15 == 0
+        return ts.minute % 15 == 0 and _is_full_minute(ts)
     elif freq == "h":
-        return ts.minute == 0
+        return ts.minute == 0 and _is_full_minute(ts)
     elif freq == "D":
         return ts.time() == start_of_day
     elif freq == "MS":
-- 
2.43.0


From 5c04e4325de650811af2dda8abc8b58f0cbfa56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 08/75] fix: rounding timestamps in repeated hour at end of DST

---
 portfolyo/tools/round.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 49329a4..eebe689 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -68,10 +68,12 @@ def stamp_current(
 
     # Fixed-duration frequency (= (quarter)hour): simply floor/ceil.
     if tools_freq.up_or_down(freq, "D") < 0:
-        if fn == "floor":
-            return ts.floor(freq, nonexistent="shift_backward")
-        else:
-            return ts.ceil(freq, nonexistent="shift_forward")
+        # (Using elapsed time, so that result is also correct around DST transitions.)
+        wall = ts.tz_localize(None)
+        rounded = ts - (wall - wall.floor(freq))
+        if fn == "ceil":
+            rounded += tools_freq.to_offset(freq)
+        return rounded
 
     # If we land here, the frequency is daily-or-longer.
 
-- 
2.43.0


From cc42b22c09ea996171834688d48ed4e7b6ca9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 09/75] fix: duration and right of timestamp need a frequency

---
 portfolyo/core/extendpandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/extendpandas.py b/portfolyo/core/extendpandas.py
index 6bde177..53e7b0d 100644
--- a/portfolyo/core/extendpandas.py
+++ b/portfolyo/core/extendpandas.py
@@ -12,5 +12,5 @@ def apply():
     pd.DataFrame.wavg = tools.wavg.dataframe
     pd.DatetimeIndex.duration = property(tools.duration.index)
     pd.DatetimeIndex.right = property(tools.right.index)
-    pd.Timestamp.duration = property(tools.duration.stamp)
-    pd.Timestamp.right = property(tools.right.stamp)
+    pd.Timestamp.duration = tools.duration.stamp
+    pd.Timestamp.right = tools.right.stamp
-- 
2.43.0


From c5038aa349f0a0be6805466e1fa3bdbec5251f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 10/75] fix: rounding to quarters or years that do not start in
 January

---
 portfolyo/tools/isboundary.py | 14 +++++++-------
 portfolyo/tools/round.py      |  6 ++++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index 3898a54..ae5bdb6 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -76,6 +76,12 @@ def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarr
         return is_quarter_start(i)
     elif freq == "YS":
         return is_year_start(i)
+    # Quarters and years that start in another month (e.g. 'QS-FEB', 'YS-APR').
+    offset = tools_freq.TO_OFFSET(freq)
+    if isinstance(offset, pd.tseries.offsets.QuarterBegin):
+        return (i.day == 1) & ((i.month - offset.startingMonth) % 3 == 0)
+    elif isinstance(offset, pd.tseries.offsets.YearBegin):
+        return (i.day == 1) & (i.month == offset.month)
     else:
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
@@ -109,14 +115,8 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
         return ts.minute == 0 and _is_full_minute(ts)
     elif freq == "D":
         return ts.time() == start_of_day
-    elif freq == "MS":
-        return (ts.time() == start_of_day) & is_month_start(ts)
-    elif freq == "QS":
-        return (ts.time() == start_of_day) & is_quarter_start(ts)
-    elif freq == "YS":
-        return (ts.time() == start_of_day) & is_year_start(ts)
     else:
-        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+        return (ts.time() == start_of_day) & is_X_start(ts, freq)
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index eebe689..7af671e 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -169,6 +169,12 @@ def _offset(freq: str, future: int):
         return pd.offsets.QuarterBegin(future, startingMonth=1)
     elif freq == "YS":
         return pd.offsets.YearBegin(future)
+    # Quarters and years that start in another month (e.g. 'QS-FEB', 'YS-APR').
+    offset = tools_freq.TO_OFFSET(freq)
+    if isinstance(offset, pd.tseries.offsets.QuarterBegin):
+        return pd.offsets.QuarterBegin(future, startingMonth=offset.startingMonth)
+    elif isinstance(offset, pd.tseries.offsets.YearBegin):
+        return pd.offsets.YearBegin(future, month=offset.month)
     else:
         raise ValueError(
             f"Parameter ``freq`` must be one of {tools_freq.ALLOWED_FREQUENCIES_DOCS}; got {freq}."
-- 
2.43.0


From ac18cd16cf6d16708ccc50b7a92fff161c61414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 11/75] fix: intersection of a single index, or with an empty
 index

---
 portfolyo/tools/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..573ff50 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple([pd.DatetimeIndex([]) for _ in idxs])
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-- 
2.43.0


From 3ca8133448b472c22bf48db7c5dfd66a0a194717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 12/75] fix: ignoring start-of-day in intersection if all are
 equal

---
 portfolyo/tools/intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 573ff50..94c8ed8 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -171,7 +171,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From b1b79774a345e498fa94b00e2ecaac4e5c6d18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 13/75] fix: intersection with distinct start-of-day and no
 full period

---
 portfolyo/tools/intersect.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 94c8ed8..c5f686a 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -118,7 +118,8 @@ def indices_flex(
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-    distinct_sod = set([i[0].time() for i in idxs])
+    start_of_day = [i[0].time() for i in idxs]
+    distinct_sod = set(start_of_day)
     if len(distinct_sod) != 1 and ignore_start_of_day is False:
         raise ValueError(f"Indices must have equal start-of-day; got {distinct_sod}.")
     for i in range(len(idxs)):
@@ -149,8 +150,6 @@ def indices_flex(
             idxs[i] = idxs[i].tz_localize(None)
 
     if ignore_start_of_day is True and len(distinct_sod) != 1:
-        # Save a copy of the original hours and minutes
-        start_of_day = [x[0].time() for x in idxs]
         # Set the time components to midnight for each index in the list
         idxs = [index.normalize() for index in idxs]
 
-- 
2.43.0


From 1653aec28dc35063605bebf17340b8afc697eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 14/75] fix: weighted average of series with values that must
 be ignored or are missing

---
 portfolyo/tools/wavg.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..699214b 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -134,28 +134,25 @@ def series(
     except KeyError as e:  # more weights than values
         raise ValueError("No values found for one or more weights.") from e
 
-    # Unweighted average if all weights the same but not all 0.
-    if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
-        return s.mean()
-
-    # Replace NaN with 0 in locations where it doesn't change the result.
-    replaceable = s.isna() & (weights == 0.0)
-    s[replaceable] = 0.0
-
-    # If we arrive here, ``s`` only has NaN on locations where weight != 0.
-
     # Check if ALL weights are 0.
     # In that case, the result is NaN.
     if (weights == 0).all():  # edge case (very uncommon)
         return np.nan
 
     # If we arrive here, not all weights are 0.
+    # Ignore values with weight 0.
+    relevant = weights != 0
+    s, weights = s[relevant], weights[relevant]
 
     # Check if ``s`` contains a NaN.
     # In that case, the result is NaN.
     if s.isna().sum() > 0:
         return np.nan
 
+    # Unweighted average if all weights the same.
+    if weights.nunique() == 1:
+        return s.mean()
+
     # For the other rows, we must calculate the wavg.
 
     # Check if SUM of weights is 0.
-- 
2.43.0


From ffb32b2bc5c81b2656a09e5aca95a32b39da854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 15/75] fix: mark-to-market value if (part of) the sourced
 volume is zero

---
 portfolyo/core/pfstate/pfstate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/pfstate.py b/portfolyo/core/pfstate/pfstate.py
index 2652e63..3f6a682 100644
--- a/portfolyo/core/pfstate/pfstate.py
+++ b/portfolyo/core/pfstate/pfstate.py
@@ -290,7 +290,8 @@ class PfState(
 
     def mtm_of_sourced(self) -> PfLine:
         """Mark-to-Market value of sourced volume."""
-        return self.sourced.volume * (self.unsourcedprice - self.sourced.price)
+        # Not using sourced.price, because it's undefined if no volume has been sourced.
+        return self.sourced.volume * self.unsourcedprice - self.sourced.revenue
 
     # Dunder methods.
 
-- 
2.43.0


From be87fce01723aff31f0a4e155d59a816f39310dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 16/75] fix: copying a nested portfolio line

---
 portfolyo/core/pfline/children.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/children.py b/portfolyo/core/pfline/children.py
index c118f34..7106333 100644
--- a/portfolyo/core/pfline/children.py
+++ b/portfolyo/core/pfline/children.py
@@ -75,6 +75,8 @@ class ChildFunctionality(Mapping):
     def __getattr__(
         self: NestedPfLine, name: str
     ):  # allow access to children by attribute
-        if name not in self.children:
+        # Avoid infinite recursion if instance is not initialised yet (e.g. when copying).
+        children = self.__dict__.get("children", {})
+        if name not in children:
             raise AttributeError(f"No such attribute '{name}'.")
-        return self.children[name]
+        return children[name]
-- 
2.43.0


From 5b246b5110187d28f5e24f04bcf1ebca6ad988de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 17/75] fix: reindexing a nested portfolio line

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..10e4da4 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From a798755e1611bf0c12305df99a48cf739a92a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:11 +0000
Subject: [PATCH 18/75] fix: concatenating fewer than two portfolio states
 raises error

---
 portfolyo/tools2/concat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..fb860e2 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -142,8 +142,9 @@ def concat_pfstates(pfss: Iterable[PfState]) -> PfState:
 
     """
     if len(pfss) < 2:
-        print("Concatenate needs at least two elements.")
-        return
+        raise NotImplementedError(
+            "Cannot perform operation with less than 2 portfolio states."
+        )
     offtakevolume = concat_pflines([pfs.offtakevolume for pfs in pfss])
     sourced = concat_pflines([pfs.sourced for pfs in pfss])
     unsourcedprice = concat_pflines([pfs.unsourcedprice for pfs in pfss])
-- 
2.43.0


From b37b59f4e015b9e32b479c7a06de213f138c47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:29 +0000
Subject: [PATCH 19/75] fix: slicing a portfolio line with a step raises error

---
 portfolyo/core/pfline/flat_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..2e3ed4e 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -124,6 +124,8 @@ class SliceIndexer:
         self.pfl = pfl
 
     def __getitem__(self, arg) -> FlatPfLine:
+        if arg.step is not None:
+            raise ValueError("Cannot use a step when slicing a portfolio line.")
         mask = pd.Index([True] * len(self.pfl.df))
         if arg.start is not None:
             mask &= self.pfl.index >= arg.start
-- 
2.43.0


From e778a582c14224f01895f2e8aabce633d1bacb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 20/75] fix: equality of portfolio lines does not depend on
 name of index

---
 portfolyo/core/pfline/flat_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index 2e3ed4e..852833e 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -72,7 +72,9 @@ def __eq__(self: FlatPfLine, other: Any) -> bool:
     if not isinstance(other, self.__class__):
         return False
     try:
-        tools.testing.assert_frame_equal(self.df, other.df, rtol=1e-7)
+        tools.testing.assert_frame_equal(
+            self.df, other.df, rtol=1e-7, check_names=False
+        )
         return True
     except AssertionError:
         return False
-- 
2.43.0


From 530276f4b475f1dbcfc819b5b07f77c7894780cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 21/75] fix: truth value of nested portfolio line

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index 10e4da4..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From 87af270c48b7047309153e53cf59e2ff0902f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 22/75] fix: reindexing keeps price of complete portfolio line
 if volume is zero

---
 portfolyo/core/pfline/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index a2c1586..7ac0a7b 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -441,7 +441,7 @@ class FlatCompletePfLine(FlatPfLine, CompletePfLine, PfLine):
     def reindex(self, index: pd.DatetimeIndex) -> FlatCompletePfLine:
         tools.testing.assert_indices_compatible(self.index, index)
         newdf = self.df[["w", "q", "r"]].reindex(index, fill_value=0)
-        newdf["p"] = newdf["r"] / newdf["q"]
+        newdf["p"] = self.df["p"].reindex(index)  # not r/q; keep price also if volume is 0
         return FlatCompletePfLine(newdf)
 
     def __bool__(self) -> bool:
-- 
2.43.0


From 35eb375dbcf11ec14a9fc1f9f01294042de076bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 23/75] fix: resampling complete portfolio line to present
 frequency keeps price if volume is zero

---
 portfolyo/core/pfline/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index 7ac0a7b..daa2a26 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -429,6 +429,8 @@ class FlatCompletePfLine(FlatPfLine, CompletePfLine, PfLine):
         return FlatRevenuePfLine(self.df[["r"]])
 
     def asfreq(self, freq: str = "MS") -> FlatCompletePfLine:
+        if tools.freq.up_or_down(self.index.freq, freq) == 0:
+            return self  # keep price also if volume is 0
         newdf = tools.changefreq.summable(self.df[["q", "r"]], freq)
         if not len(newdf):
             raise ValueError(
-- 
2.43.0


From 6b1afdcf8b856ad587bb112eca5d39d18a6b6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 24/75] fix: peak function with bound in hour that is skipped
 at start of DST

---
 portfolyo/tools/peakfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..48d8c66 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -9,7 +9,6 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
-from . import right as tools_right
 
 PeakFunction = Callable[[pd.DatetimeIndex], pd.Series]
 
@@ -85,7 +84,8 @@ def factory(
 
     def filter_time(i: pd.DatetimeIndex) -> np.ndarray:
         time_left = i.time
-        time_right = tools_right.index(i).time
+        # (In wall-clock time, so that skipped or repeated hours have no influence.)
+        time_right = (i.tz_localize(None) + tools_freq.to_offset(i.freq)).time
         mask = True
         if peak_left != MIDNIGHT:
             cond1 = time_left >= peak_left
-- 
2.43.0


From f50e2c2daacda8cbd1b4ade7b76ae3de54efa299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 25/75] fix: peak function with weekdays from generator, or
 changed after creation

---
 portfolyo/tools/peakfn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 48d8c66..e126f6b 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -56,6 +56,7 @@ def factory(
         peak_right = MIDNIGHT
     if isoweekdays is None:
         isoweekdays = [1, 2, 3, 4, 5]
+    isoweekdays = set(isoweekdays)  # (also correct for generators, or if changed later)
 
     # Characterize the input.
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
-- 
2.43.0


From 4e5dc553331d941c85cad409df1610d882a49972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 26/75] fix: peak function without any weekday is rejected

---
 portfolyo/tools/peakfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index e126f6b..345abd4 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -61,8 +61,8 @@ def factory(
     # Characterize the input.
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
     weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
-    must_check_date = 0 < weekday_count < 7
-    if not must_check_time and not must_check_date:
+    must_check_date = weekday_count < 7
+    if weekday_count == 0 or (not must_check_time and not must_check_date):
         raise ValueError(
             "Input specifies no special cases; all time periods included or all time periods "
             f"excluded; got {peak_left}-{peak_right} on {weekday_count} days of the week."
-- 
2.43.0


From 337b9926db8763b99dfbc4f96fa9dd884ebaa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 27/75] fix: converting peak and offpeak values to timeseries
 swaps them

Every peak timestamp got the offpeak value and vice versa.
---
 portfolyo/tools/peakconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..d9cebae 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -291,7 +291,7 @@ def poframe2tseries(
         df2 = tools_changefreq.averagable(df, freq)
     df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    return df2["peak"].where(df2["ispeak"], df2["offpeak"])
 
 
 # def tseries2tseries(
-- 
2.43.0


From 40779dbf864a48954d3abdc0cc33155e5b8366ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 28/75] fix: converting summable peak and offpeak values to
 timeseries

The values were spread out over all hours of the delivery period, instead of over
its peak (or offpeak) hours only. Consequently, their sum was not conserved.
---
 portfolyo/tools/peakconvert.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index d9cebae..4c38256 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -281,17 +281,23 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
-    # Stretch the dataframe to higher frequency
+    # Summable values are spread out over the peak (or offpeak) hours only.
     if is_summable:
-        df2 = tools_changefreq.summable(df, freq)
-    else:
-        df2 = tools_changefreq.averagable(df, freq)
+        peak = tools_peakfn.peak_duration(df.index, peak_fn).pint.m
+        offpeak = tools_peakfn.offpeak_duration(df.index, peak_fn).pint.m
+        df = pd.DataFrame(
+            {"peak": df["peak"] / peak, "offpeak": df["offpeak"] / offpeak}
+        )
+
+    # Stretch the dataframe to higher frequency
+    df2 = tools_changefreq.averagable(df, freq)
     df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
+    s = df2["peak"].where(df2["ispeak"], df2["offpeak"])
 
-    return df2["peak"].where(df2["ispeak"], df2["offpeak"])
+    return s * tools_duration.index(s.index).pint.m if is_summable else s
 
 
 # def tseries2tseries(
-- 
2.43.0


From e465bde60f729207f0bb9146f4fb70f821ba28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 29/75] fix: peak and offpeak values of timeseries with other
 start-of-day

The values were grouped by calendar month (etc.), regardless of the start-of-day, so
that the first hours of a delivery period were counted in the previous one.
---
 portfolyo/tools/peakconvert.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 4c38256..187b05a 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -219,15 +219,17 @@ def tseries2poframe(
     # Handle possible units.
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
-    # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
-        lambda s: _tseries2po(s, peak_fn, is_summable)
-    )
+    # Do calculations, for each delivery period.
+    # We cannot simply `.resample()`, because in that case the start-of-day is lost.
+    i = tools_changefreq.index(s.index, freq)
+    starts = sin.index.searchsorted(i)
+    parts = [sin.iloc[a:b] for a, b in zip(starts, [*starts[1:], len(sin)])]
+    dfout = pd.DataFrame([_tseries2po(s, peak_fn, is_summable) for s in parts], i)
 
     # Handle possible units.
     if units is not None:
-        sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+        dfout = dfout.astype(f"pint[{units}]")
+    return dfout  # peak, offpeak as columns
 
 
 def poframe2tseries(
-- 
2.43.0


From 3bf9b9cfb37cd69e19bebd2863e8405eaa931874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 30/75] fix: hedge with daily products, or with other
 start-of-day

Hedging with daily products is documented, but raised an error. And the timestamps
were grouped by calendar month (etc.), regardless of the start-of-day.
---
 portfolyo/tools/peakconvert.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 187b05a..c1cb773 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -18,19 +18,16 @@ def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
-    # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
-    elif freq == "QS":
-        groups.append(i.quarter)
-    elif freq == "YS":
-        pass
-    else:
+    if freq not in ["D", "MS", "QS", "YS"]:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
+    # Grouping due to delivery period; identified by its start. (We can't use the calendar
+    # month (etc.) of the timestamps, because that ignores the start-of-day.)
+    starts = tools_changefreq.index(i, freq)
+    groups = [starts[starts.searchsorted(i, side="right") - 1]]
+
     # Add grouping due to peak.
     if peak_fn is not None:
         groups.append(peak_fn(i))
-- 
2.43.0


From f10c006ca13b1d0569a0b7923583412b1b12c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 31/75] fix: hedge if only one of volume and price has unit

---
 portfolyo/tools/hedge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/hedge.py b/portfolyo/tools/hedge.py
index c49dbf0..e298cb9 100644
--- a/portfolyo/tools/hedge.py
+++ b/portfolyo/tools/hedge.py
@@ -108,7 +108,9 @@ def hedge(
     wout, pout = dfout["w"], dfout["p"]
 
     # Handle possible units.
-    if wunits or punits:
-        wout, pout = wout.astype(f"pint[{wunits}]"), pout.astype(f"pint[{punits}]")
+    if wunits is not None:
+        wout = wout.astype(f"pint[{wunits}]")
+    if punits is not None:
+        pout = pout.astype(f"pint[{punits}]")
 
     return wout, pout
-- 
2.43.0


From 27833450817c004cee3a17ed88d3e3e3453ccc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 32/75] fix: conversion to agnostic keeps name, unit and
 columns of (quarter)hourly data

---
 portfolyo/tools/tzone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..02954a9 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,7 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    # Take value of prev hour if current time not found in the input.
+    found = idx_out.isin(partly.index)
+    mapping_onto_input_index = idx_out.where(found, idx_out - pd.Timedelta(hours=1))
+    return partly.loc[mapping_onto_input_index].set_axis(idx_out)
-- 
2.43.0


From 32d2a53977e9be280c84b4546e6e28b1f9b60a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 33/75] fix: conversion to same timezone if index has zoneinfo
 timezone

---
 portfolyo/tools/tzone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 02954a9..79d6d9b 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -193,10 +193,11 @@ def force_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
 
 
 def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_DataFrame:
-    if isinstance(tz, str):  # convert to make comparison (below) possible
+    if isinstance(tz, str):
         tz = pytz.timezone(tz)
 
-    if fr.index.tz == tz:
+    # Compare by name; index may use timezone object of other type (e.g. zoneinfo).
+    if str(fr.index.tz) == str(tz):
         # input already has wanted tz; no conversion necessary
         return fr
 
-- 
2.43.0


From 3afb0ebcb7eba62c385050cdf2b76d2fe740b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 34/75] fix: conversion to other timezone changes start or end
 of delivery periods

---
 portfolyo/tools/tzone.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 79d6d9b..d793129 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -4,6 +4,7 @@ import pandas as pd
 import pytz
 
 from . import freq as tools_freq
+from . import right as tools_right
 from .types import Series_or_DataFrame
 
 """
@@ -203,7 +204,19 @@ def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_Da
 
     elif not floating:
         # convertion using universal time
-        return fr.tz_convert(tz)
+        fr_out = fr.tz_convert(tz)
+        # Daily or longer: periods that exist in one timezone may not exist in the other.
+        if tools_freq.shortest(fr.index.freq, "D") == "D":
+            ends, ends_out = (
+                [tools_right.stamp(ts, fr.index.freq) for ts in f.index]
+                for f in (fr, fr_out)
+            )
+            if ends != ends_out:
+                raise ValueError(
+                    "Cannot convert to another timezone with ``floating`` set to False: "
+                    "the delivery periods do not exist in the target timezone."
+                )
+        return fr_out
 
     else:
         # conversion by keeping local time
-- 
2.43.0


From 9e67b7b117755fea53334498ee05656303ac500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:36 +0000
Subject: [PATCH 35/75] fix: standardizing right-bound data with gap before
 final timestamp is rejected

---
 portfolyo/tools/standardize.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 487fcc8..6598233 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -133,6 +133,8 @@ def _fix_rightbound(fr, force, tz, floating):
     for how in ["A", "B"]:
         try:
             i_left = tools_righttoleft.index(fr.index, how)
+            if how == "B":  # final right-bound timestamp is not used; check it separately
+                _assert_final_timestamp(i_left, fr.index[-1], tz)
             fr_left = fr.set_axis(i_left)
             return frame(fr_left, force, "left", tz=tz, floating=floating)
         except ValueError:
@@ -140,6 +142,21 @@ def _fix_rightbound(fr, force, tz, floating):
     raise ValueError("Cannot make this frame left-bound.")
 
 
+def _assert_final_timestamp(i_left: pd.DatetimeIndex, end: pd.Timestamp, tz: str):
+    """Raise ValueError if ``end`` is not the end of the final period in ``i_left``."""
+    if not i_left.tz and tz:
+        try:
+            i_left = i_left.tz_localize(tz, ambiguous="infer")
+        except (AmbiguousTimeError, NonExistentTimeError):
+            pass  # could not be localized; continue with i_left as-is.
+    i_left = tools_freq.guess_to_index(i_left)
+    if not i_left.freq:
+        raise ValueError("Frequency could not be inferred.")
+    end_expected = tools_right.stamp(i_left[-1], i_left.freq)
+    if (end_expected if end.tz else end_expected.tz_localize(None)) != end:
+        raise ValueError("Final timestamp does not fit the other timestamps.")
+
+
 def _fix_timezone(fr, force, tz, floating):
     if force is None:
         return fr
-- 
2.43.0


From 4a4e13b8d7406c760b7156dc56bc29b595d4beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 36/75] fix: monthly or longer frequency is not inferred if
 timestamps differ in time of day

---
 portfolyo/tools/freq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index fb8523b..8532016 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -350,6 +350,9 @@ def guess_to_index(i: pd.DatetimeIndex) -> pd.DatetimeIndex:
 
     try:
         inferred_freq = pd.infer_freq(i)
+        # pandas ignores time-of-day when inferring monthly (or longer) frequency
+        if inferred_freq and len(set(i.time)) > 1 and (i[1] - i[0]).days > 1:
+            return i
         for row_index in range(len(quarter_matrix)):  # Loop through the rows
             if (
                 inferred_freq in quarter_matrix[row_index]
-- 
2.43.0


From 76a4330e913ede8bb81b3c669a92ea146c99f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 37/75] fix: daily right-bound timestamps around DST change
 made left-bound

---
 portfolyo/tools/righttoleft.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5384352..ea928a4 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -5,7 +5,6 @@ Calculate the left-bound timestamp of delivery period, given the right-bound one
 import pandas as pd
 
 from . import freq as tools_freq
-from . import startofday as tools_startofday
 
 
 def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
@@ -40,11 +39,11 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
         i = tools_freq.guess_to_index(i)
 
     if i.freq is not None:
-        i2 = i.shift(-1)
-        # HACK: pandas does not give correct result if first timestamp is after DST-transition
-        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
-            i2 = i - tools_freq.to_offset(i.freq)
-        return i2
+        # HACK: pandas' ``.shift()`` does not give correct result around DST-transition
+        if i.freq == "D" and len(i):
+            start = i[0] - tools_freq.to_offset(i.freq)
+            return pd.date_range(start, periods=len(i), freq=i.freq, name=i.name)
+        return i.shift(-1)
 
     # Couldn't infer frequency. Try from median timedelta and turn into time offset.
     offst = tools_freq.to_offset(tools_freq.from_tdelta((i[1:] - i[:-1]).median()))
-- 
2.43.0


From 52bcac81c5ba70071ca796fefe86d0e8d28a9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 38/75] fix: check of delivery periods only when frequency is
 set

---
 portfolyo/tools/tzone.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index d793129..e382736 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -127,6 +127,8 @@ def force_aware(
     # Do conversion.
     if tz_input:  # input is tz-aware but maybe not in the correct timezone
         fr_out = _A_to_A(fr, tz=tz, floating=floating)
+        if fr_out is not fr and not floating:
+            _assert_same_periods(fr, fr_out)
 
     else:  # input is standardized tz-agnostic
         fr_out = _B_to_A(fr, tz=tz)
@@ -193,6 +195,19 @@ def force_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     return fr_out
 
 
+def _assert_same_periods(fr: Series_or_DataFrame, fr_out: Series_or_DataFrame) -> None:
+    """Daily or longer: periods that exist in one timezone may not exist in the other."""
+    freq = fr.index.freq
+    if tools_freq.shortest(freq, "D") != "D":
+        return
+    ends, ends_out = ([tools_right.stamp(ts, freq) for ts in f.index] for f in (fr, fr_out))
+    if ends != ends_out:
+        raise ValueError(
+            "Cannot convert to another timezone with ``floating`` set to False: the "
+            "delivery periods do not exist in the target timezone."
+        )
+
+
 def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_DataFrame:
     if isinstance(tz, str):
         tz = pytz.timezone(tz)
@@ -204,19 +219,7 @@ def _A_to_A(fr: Series_or_DataFrame, *, tz: str, floating: bool) -> Series_or_Da
 
     elif not floating:
         # convertion using universal time
-        fr_out = fr.tz_convert(tz)
-        # Daily or longer: periods that exist in one timezone may not exist in the other.
-        if tools_freq.shortest(fr.index.freq, "D") == "D":
-            ends, ends_out = (
-                [tools_right.stamp(ts, fr.index.freq) for ts in f.index]
-                for f in (fr, fr_out)
-            )
-            if ends != ends_out:
-                raise ValueError(
-                    "Cannot convert to another timezone with ``floating`` set to False: "
-                    "the delivery periods do not exist in the target timezone."
-                )
-        return fr_out
+        return fr.tz_convert(tz)
 
     else:
         # conversion by keeping local time
-- 
2.43.0


From 3141dfdb5be0c6546fe4503ac03f7e1f743d369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 39/75] fix: shortest and longest frequency if quarter or year
 starts in other month

---
 portfolyo/tools/freq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 8532016..edfa13f 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -214,8 +214,10 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
     common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
-    i = (np.argmin if shortest else np.argmax)(ts)
+    offsets = [pd.tseries.frequencies.to_offset(fr) for fr in freqs]
+    starts = [offset.rollforward(common_ts) for offset in offsets]  # first full period
+    durations = [start + offset - start for start, offset in zip(starts, offsets)]
+    i = (np.argmin if shortest else np.argmax)(durations)
     return freqs[i]
 
 
-- 
2.43.0


From 8029c50397c52f0f0216330d8f741b74ed04d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 40/75] fix: changing year of (quarter)hourly data if day does
 not start at midnight

---
 portfolyo/tools/changeyear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..df5134f 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -285,8 +285,8 @@ def _map_index_to_index_hourlyandshorter(
     idx_source_d = tools_changefreq.index(idx_source, "D")
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
-    # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    # Split timestamps in 'day' and 'offset'. (Day does not necessarily start at midnight.)
+    idx_target_part1 = idx_target_d[idx_target_d.searchsorted(idx_target, "right") - 1]
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
-- 
2.43.0


From 6c6e98d78b74f343ad694be8d966ce2c03f2bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 41/75] fix: changing year maps 23h-day onto 25h-day

---
 portfolyo/tools/changeyear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index df5134f..2e964b0 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -219,6 +219,8 @@ def _map_index_to_index_daily_samemonth(
 
     source = characterize_index(idx_source, holiday_country)
     target = characterize_index(idx_target, holiday_country)
+    source["duration"] = tools_right.index(idx_source) - idx_source
+    target["duration"] = tools_right.index(idx_target) - idx_target
     source["in_target_count"] = 0  # keep track of which days have been used.
     target["source_day"] = None
 
@@ -236,8 +238,8 @@ def _map_index_to_index_daily_samemonth(
 
     # Map the DST days.
     for day in target[target.dst_change].itertuples():
-        # Find dst-changing day in same month.
-        candidates = source[source.dst_change]
+        # Find dst-changing day in same month, with same duration.
+        candidates = source[source.dst_change & (source.duration == day.duration)]
         set_day(candidates, day.Index)
 
     # Map the non-holidays.
-- 
2.43.0


From 934fdf67404c23becf35bc79a8bb32d14e6a4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 42/75] fix: changing year of revenue line

---
 portfolyo/tools2/changeyear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..296628b 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -68,10 +68,10 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
     elif pfl.kind is Kind.REVENUE:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
-        df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
-        df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        s = pfl.r / tools.duration.index(pfl.index)  # Make averageble
+        s2 = tools.changeyear.map_frame_to_year(s, year, holiday_country)
+        s2 *= tools.duration.index(s2.index)  # Make summable again
+        df2 = {"r": s2}
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From a0a020ba160414bce23e8e9bd769304cd094058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:09 +0000
Subject: [PATCH 43/75] fix: left and right timestamps in UTC timezone

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From 302adf6b74f21c04db56e284fec58dc8abe200a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 44/75] fix: dataframe of portfolio line without units

---
 portfolyo/core/pfline/dataframeexport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..9c20026 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -36,8 +36,10 @@ class Flat:
         """
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
-        df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        series = {col: self.df[col] for col in cols}
+        if not has_units:
+            series = {col: s.pint.m for col, s in series.items()}
+        return pd.DataFrame(series)
 
 
 class Nested:
-- 
2.43.0


From b53fae1c87f4c4e970aaf295be283665458331ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 45/75] fix: dataframe of portfolio line without the requested
 columns keeps index

---
 portfolyo/core/pfline/dataframeexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index 9c20026..5c4761c 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -39,7 +39,7 @@ class Flat:
         series = {col: self.df[col] for col in cols}
         if not has_units:
             series = {col: s.pint.m for col, s in series.items()}
-        return pd.DataFrame(series)
+        return pd.DataFrame(series, self.index)
 
 
 class Nested:
-- 
2.43.0


From ac9ca8e517eef2e9ff6d1486ada593863fc64c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 46/75] fix: keyword arguments when exporting to excel

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From 2fa059852e05f17be357a29d80676e91e88fed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 47/75] fix: text output with at most 2 timestamps

---
 portfolyo/core/shared/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 91332f8..e589e1f 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -42,9 +42,9 @@ def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
         lambda ts: ts.strftime(DATETIMEFORMAT).ljust(COLWIDTHS["ts"])
     )
     if len(df.index) > num_of_ts:
-        i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
+        i1, i2 = num_of_ts // 2, max((num_of_ts - 1) // 2, 0)
         inter = pd.DataFrame([[".."] * len(df.columns)], [".."], df.columns)
-        df = pd.concat([df.iloc[:i1], inter, df.iloc[-i2:]])
+        df = pd.concat([df.iloc[:i1], inter, df.iloc[len(df.index) - i2 :]])
     return df
 
 
-- 
2.43.0


From c960f00dfb8aeeb4111ad65b9426e0304764285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:56 +0000
Subject: [PATCH 48/75] fix: text output of portfolio line with more than 7
 levels

---
 portfolyo/core/shared/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index e589e1f..bcd88d2 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -59,7 +59,8 @@ def index_info(i: pd.DatetimeIndex) -> Iterable[str]:
 
 def treedict(depth: int, is_last_child: bool, has_children: bool) -> Dict[str, str]:
     """Dictionary with 4 strings ('00', '01', '10', '11') that are used in drawing the tree."""
-    colors = {"0": TREECOLORS[depth], "1": TREECOLORS[depth + 1]}
+    n = len(TREECOLORS)
+    colors = {"0": TREECOLORS[depth % n], "1": TREECOLORS[(depth + 1) % n]}
     tree = {}
     # 00 = first chars on header text line, #10 = first chars on other text lines
     if depth == 0:
-- 
2.43.0


From 585cbee5e304dac98bc405b88a33df66333de8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 49/75] fix: frequency of 89-day quarter with DST-change

---
 portfolyo/tools/freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index edfa13f..2ecb47f 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -323,7 +323,7 @@ def from_tdelta(tdelta: pd.Timedelta) -> str:
         return "D"
     elif pd.Timedelta(days=27) <= tdelta <= pd.Timedelta(days=32):
         return "MS"
-    elif pd.Timedelta(days=89) <= tdelta <= pd.Timedelta(days=93):
+    elif pd.Timedelta(days=88, hours=23) <= tdelta <= pd.Timedelta(days=93):
         return "QS"
     elif pd.Timedelta(days=364) <= tdelta <= pd.Timedelta(days=367):
         return "YS"
-- 
2.43.0


From c1a784e0154258e392b56fa4a56fad2587a8f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 50/75] fix: frequency of gappy monthly-or-longer index not
 inferred as week-of-month

---
 portfolyo/tools/freq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 2ecb47f..7c42fd4 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -352,6 +352,9 @@ def guess_to_index(i: pd.DatetimeIndex) -> pd.DatetimeIndex:
 
     try:
         inferred_freq = pd.infer_freq(i)
+        # pandas infers week-of-month frequency for gappy monthly (or longer) values
+        if inferred_freq and inferred_freq.startswith("WOM"):
+            return i
         # pandas ignores time-of-day when inferring monthly (or longer) frequency
         if inferred_freq and len(set(i.time)) > 1 and (i[1] - i[0]).days > 1:
             return i
-- 
2.43.0


From 7c6b4b06724d038e2a8a846b6843eaf47a62d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 51/75] fix: filling gaps if only gap is at the end

---
 portfolyo/tools/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..d261614 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -34,11 +34,11 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     index_beforegap = fr[~is_gap & next_gap].index
     index_aftergap = fr[~is_gap & prev_gap].index
     # remove orphans at beginning and end
-    if index_beforegap.empty:
+    if index_beforegap.empty or index_aftergap.empty:
         return fr
     elif index_beforegap[-1] > index_aftergap[-1]:
         index_beforegap = index_beforegap[:-1]
-    if index_aftergap.empty:
+    if index_beforegap.empty:
         return fr
     elif index_aftergap[0] < index_beforegap[0]:
         index_aftergap = index_aftergap[1:]
-- 
2.43.0


From d90d5baee393bc4d9d7ac161d4c0cf57655441a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 52/75] fix: filling gaps changes existing value after gap

---
 portfolyo/tools/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index d261614..397b711 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -49,7 +49,8 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
             continue
         x0, y0, x1, y1 = i_before, fr[i_before], i_after, fr[i_after]
         dx, dy = x1 - x0, y1 - y0
-        fr.loc[i_before:i_after] = y0 + (section.index - x0) / dx * dy
+        gap = section.index[1:-1]  # keep existing values
+        fr.loc[gap] = y0 + (gap - x0) / dx * dy
     return fr
 
 
-- 
2.43.0


From 83c929b3ca80240fe176a1e7657627149861a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 53/75] fix: joining frames from iterator

---
 portfolyo/tools/frame.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 397b711..70ca929 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -112,6 +112,7 @@ def concat(dfs: Iterable[pd.DataFrame], axis: int = 0, *args, **kwargs) -> pd.Da
                 df = df.swaplevel(i, i + need, axis=axis)
         return df
 
+    dfs = list(dfs)
     want = np.max([index(df).nlevels for df in dfs])
     dfs = [add_levels(df) for df in dfs]
     return pd.concat(dfs, axis=axis, *args, **kwargs)
-- 
2.43.0


From 6062d4f93cb03c7e7e75aa33a19748fc7ccf6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:56 +0000
Subject: [PATCH 54/75] fix: filling gaps if a single value separates a gap
 from the start or end

---
 portfolyo/tools/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 70ca929..c19f6e6 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -36,11 +36,11 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     # remove orphans at beginning and end
     if index_beforegap.empty or index_aftergap.empty:
         return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
+    elif index_beforegap[-1] >= index_aftergap[-1]:
         index_beforegap = index_beforegap[:-1]
     if index_beforegap.empty:
         return fr
-    elif index_aftergap[0] < index_beforegap[0]:
+    elif index_aftergap[0] <= index_beforegap[0]:
         index_aftergap = index_aftergap[1:]
     fr = fr.copy()
     for i_before, i_after in zip(index_beforegap, index_aftergap):
-- 
2.43.0


From 126ac1c1b3df180b48fd672ecad5cbb161016d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:31 +0000
Subject: [PATCH 55/75] fix: steps in plot span the delivery period

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..0c5599c 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -161,7 +161,7 @@ def plot_timeseries_as_step(
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
 
-    ax.step(splot.index, splot.values, where="mid", **kwargs)
+    ax.step(splot.index, splot.values, where="post", **kwargs)
     delta = s.index.right - s.index
     set_data_labels(ax, s.index + 0.5 * delta, s.values, labelfmt, True)
     ax.autoscale()
-- 
2.43.0


From 02c2e96d2cd9ccb2b61cb6fc0f7bc50b0d42940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:31 +0000
Subject: [PATCH 56/75] fix: plotting quarters and years that do not start in
 January

---
 portfolyo/tools/visualize/categories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index f31e2c4..40e433d 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -58,7 +58,7 @@ class Categories:
 
 
 def create_categories(s: pd.Series) -> Iterable[Category]:
-    if s.index.freq == "YS":
+    if isinstance(s.index.freq, pd.offsets.YearBegin):
         prios = priolist(len(s))
 
         def category(i, ts, y):
@@ -66,7 +66,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             short_label = label[-2:] if i > 0 else label
             return Category(i, y, ts, label, short_label, prios[i])
 
-    elif s.index.freq == "QS":
+    elif isinstance(s.index.freq, pd.offsets.QuarterBegin):
 
         def category(i, ts, y):
             num = ts.quarter
@@ -75,7 +75,7 @@ def create_categories(s: pd.Series) -> Iterable[Category]:
             label = short_label = f"Q{num}\n{year}"
             return Category(i, y, ts, label, short_label, prio)
 
-    elif s.index.freq == "MS":
+    elif isinstance(s.index.freq, pd.offsets.MonthBegin):
         prios = priolist(12)
 
         def category(i, ts, y):
-- 
2.43.0


From d74286b979c622cee21c43731e3e820d56a87307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:42 +0000
Subject: [PATCH 57/75] fix: bar plots of timeseries with missing values

---
 portfolyo/tools/visualize/categories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index 40e433d..1b7031d 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -38,7 +38,7 @@ class Categories:
         if not isinstance(values[0], tools_unit.Q_):
             return np.array(values)
         unit = values[0].units
-        magnitudes = [value.to(unit).m for value in values]
+        magnitudes = np.array([value.to(unit).m for value in values])  # keep nan as is
         return tools_unit.PA_(magnitudes, unit)
 
     def x(self, max_count: int = None) -> Iterable[int]:
-- 
2.43.0


From 36458338d5862f20cac1e4a8201849804c346d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:42 +0000
Subject: [PATCH 58/75] fix: limits of plotted portfolio state must include all
 values

---
 portfolyo/core/pfstate/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/plot.py b/portfolyo/core/pfstate/plot.py
index 975dac9..177af50 100644
--- a/portfolyo/core/pfstate/plot.py
+++ b/portfolyo/core/pfstate/plot.py
@@ -79,5 +79,6 @@ class PfStatePlot:
         mins_vol, maxs_vol = zip(*limit)
 
         themin, themax = min(mins_vol), max(maxs_vol)
+        margin = 0.1 * (themax - themin)
         for ax in axes:
-            ax.set_ylim(themin * 1.1, themax * 1.1)
+            ax.set_ylim(themin - margin, themax + margin)
-- 
2.43.0


From e6452af7df93a471cd721aba0f928a26756d0e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:03 +0000
Subject: [PATCH 59/75] fix: turn series of quantities into pint-series without
 going through the text of the unit

Text of e.g. kWh/euro_per_MWh is 'kWh/Eur/MWh', which is another unit.
---
 portfolyo/tools/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/unit.py b/portfolyo/tools/unit.py
index b4824a8..b0d6798 100644
--- a/portfolyo/tools/unit.py
+++ b/portfolyo/tools/unit.py
@@ -194,7 +194,7 @@ def avoid_frame_of_objects(fr: Series_or_DataFrame) -> Series_or_DataFrame:
             return fr
         # We may have a series of pint quantities. Convert to pint-series, if possible.
         try:
-            return fr.astype(f"pint[{fr.iloc[0].units}]")
+            return fr.astype(pint_pandas.PintType(fr.iloc[0].units))
         except pint.DimensionalityError as e:
             dimensions = {v.dimensionality for v in fr.values}
             raise pint.DimensionalityError(
-- 
2.43.0


From 06086bae356a52f48805276306037784163654ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:03 +0000
Subject: [PATCH 60/75] fix: series with quantities of several dimensions
 raised TypeError instead of DimensionalityError

---
 portfolyo/tools/unit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/unit.py b/portfolyo/tools/unit.py
index b0d6798..5aaa41e 100644
--- a/portfolyo/tools/unit.py
+++ b/portfolyo/tools/unit.py
@@ -198,7 +198,11 @@ def avoid_frame_of_objects(fr: Series_or_DataFrame) -> Series_or_DataFrame:
         except pint.DimensionalityError as e:
             dimensions = {v.dimensionality for v in fr.values}
             raise pint.DimensionalityError(
-                f"Expected a Series with quantities of the same dimension; got {dimensions}."
+                e.units1,
+                e.units2,
+                e.dim1,
+                e.dim2,
+                extra_msg=f". Expected a Series with quantities of the same dimension; got {dimensions}.",
             ) from e
     raise TypeError(
         "Expected int-Series, float-Series, pint-Series, or Series of pint quantities (of equal dimensionality)."
-- 
2.43.0


From 38ca4913a3bba9d4bfaadd277a8b498e5e377edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:08 +0000
Subject: [PATCH 61/75] fix: default unit of all dimensionless values is a
 number, also if unit is e.g. fraction or kWh/MWh

---
 portfolyo/tools/unit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/unit.py b/portfolyo/tools/unit.py
index 5aaa41e..ac52e83 100644
--- a/portfolyo/tools/unit.py
+++ b/portfolyo/tools/unit.py
@@ -94,13 +94,13 @@ def defaultunit(
     elif isinstance(val, float):
         return val
     elif isinstance(val, pint.Quantity):
-        if val.units == ureg.Unit("dimensionless"):
-            return val.magnitude
+        if val.dimensionless:  # also if unit is e.g. 'fraction' or 'kWh/MWh'
+            return val.m_as("dimensionless")
         return val.to_base_units()
     elif isinstance(val, pd.Series):
         if isinstance(val.dtype, pint_pandas.PintType):
-            if val.pint.units == ureg.Unit("dimensionless"):
-                return val.astype(float)
+            if val.pint.units.dimensionless:  # also if unit is e.g. 'fraction' or 'kWh/MWh'
+                return val.pint.to("dimensionless").astype(float)
             return val.pint.to_base_units()
         elif pd.api.types.is_object_dtype(val.dtype) and isinstance(val.iloc[0], Q_):
             try:
-- 
2.43.0


From 9dcbff528974bb270a0e2c62b5f319c0ff3efc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:28 +0000
Subject: [PATCH 62/75] fix: plotting dimensionless values raised
 AttributeError

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 0c5599c..8223a66 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -271,7 +271,7 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         "p": Colors.Wqpr.p,
     }
     # Set default color if name_unit not found
-    default_color = "white"
+    default_color = Colors.General.WHITE.value
     # Get background color based on name_unit
     background_color = unit_colors.get(name_unit, default_color)
     ax.set_ylabel(f"{unit:~P}", backgroundcolor=background_color.lighten(0.3))
-- 
2.43.0


From 7a2f14d3c0a64b31baed01a4791b9232ea432175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:09 +0000
Subject: [PATCH 63/75] fix: plot_pfstates used functions that do not exist,
 and returned nothing

---
 portfolyo/tools2/plot.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index 9117b36..bee31ed 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -6,10 +6,9 @@ import matplotlib
 import numpy as np
 from matplotlib import pyplot as plt
 
-from .. import tools
-from ..core.pfline.plot import defaultkwargs
+from ..core.pfline import Kind
+from ..core.pfline.plot import plotfn_and_kwargs
 from ..core.pfstate import PfState
-from ..tools import visualize as vis
 
 
 def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
@@ -43,10 +42,6 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
     # TODO: resample all to have same index (frequency and length).
 
     for i, ((pfname, pfs), axes) in enumerate(zip(dic.items(), axesgroups)):
-        # If freq is MS or longer: use categorical axes. Plot volumes in MWh.
-        # If freq is D or shorter: use time axes. Plot volumes in MW.
-        is_category = tools.freq.shortest(pfs.index.freq, "MS") == "MS"
-
         # Portfolio name.
         axes[0].text(
             0,
@@ -60,22 +55,17 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
         axes[0].axis("off")
 
         # Volumes.
-        if is_category:
-            s, kwargs = -1 * pfs.offtakevolume.q, defaultkwargs("q", is_category)
-        else:
-            s, kwargs = -1 * pfs.offtakevolume.w, defaultkwargs("w", is_category)
-        vis.plot_timeseries(axes[1], s, **kwargs)
+        (-1 * pfs.offtakevolume).plot_to_ax(axes[1], kind=Kind.VOLUME)
 
         # Sourced fraction.
-        vis.plot_timeseries(
-            axes[2], pfs.sourcedfraction, **defaultkwargs("f", is_category)
-        )
+        fn, kwargs = plotfn_and_kwargs("f", pfs.index.freq, None)
+        fn(axes[2], pfs.sourcedfraction, **kwargs)
 
         # Empty.
         axes[3].axis("off")
 
         # Procurement Price.
-        vis.plot_timeseries(axes[4], pfs.pnl_cost.p, **defaultkwargs("p", is_category))
+        pfs.pnl_cost.plot_to_ax(axes[4], kind=Kind.PRICE)
 
         # Empty.
         axes[5].axis("off")
@@ -98,7 +88,11 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
             axes[1].set_title("Offtake Volume &\nprocurement price", y=1.27)
             axes[2].set_title("Sourced fraction", y=1.27)
 
-    return
+    # Ensure all values are visible.
+    for ax in sharey:
+        ax.autoscale(axis="y")
+
+    return fig
     draw_horizontal_lines(fig, axes)  # draw horizontal lines between portfolios
 
 
-- 
2.43.0


From 177949d592cf442afa020137b3e5087741d25f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 64/75] fix: dev.get_pfline(positive=True) with several levels
 had negative values

---
 portfolyo/dev/develop.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index efe7af0..79b8e60 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -246,7 +246,13 @@ def get_pfline(
         names = (*_ancestornames, namefn(c))
         name = "-".join(names)
         children[name] = get_pfline(
-            i, kind, nlevels - 1, childcount, _ancestornames=names, _seed=_seed
+            i,
+            kind,
+            nlevels - 1,
+            childcount,
+            positive=positive,
+            _ancestornames=names,
+            _seed=_seed,
         )
     return create.nestedpfline(children)
 
-- 
2.43.0


From b62ab7c3100bd97e4bb6aa376f0914d1ef8d630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 65/75] fix: dev.get_series and dev.get_dataframe renamed the
 index they are given

---
 portfolyo/dev/develop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index 79b8e60..4cb5bd9 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -92,7 +92,7 @@ def get_series(
     'wqpr') or random between 100 and 200."""
     if i is None:
         i = get_index(_seed=_seed)
-    i.name = "ts_left"
+    i = i.rename("ts_left")  # do not change the original
 
     if _seed:
         np.random.seed(_seed)
@@ -132,7 +132,7 @@ def get_dataframe(
     are not made consistent."""
     if i is None:
         i = get_index(_seed=_seed)
-    i.name = "ts_left"
+    i = i.rename("ts_left")  # do not change the original
     series = {col: get_series(i, col, has_unit, _seed=_seed) for col in columns}
     return pd.DataFrame(series)
 
-- 
2.43.0


From 7e226362f4e409d15c1b2766ecb7dd7d2ef153cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 66/75] fix: mock-up prices were higher on sunday than midweek
 (maximum on monday instead of tuesday)

---
 portfolyo/dev/mockup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/dev/mockup.py b/portfolyo/dev/mockup.py
index 096d2bb..b05a5f9 100644
--- a/portfolyo/dev/mockup.py
+++ b/portfolyo/dev/mockup.py
@@ -112,7 +112,7 @@ def p_marketprices(
         pa = np.zeros(len(i))
     # Values
     yv = year_amp * np.cos(ya - 0.35)  # max in feb
-    wv = week_amp * np.cos(wa - 1.07)  # max on tuesday
+    wv = week_amp * np.cos(wa - 1.80)  # max on tuesday
     pv = peak_amp * pa
     s = pd.Series(avg * (1 + yv + wv + pv), i, name="p")
     return s if not has_unit else s.astype("pint[Eur/MWh]")
-- 
2.43.0


From be08048f32270d92dbc458095ee43afaf5e6b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:14 +0000
Subject: [PATCH 67/75] Revert "fix: mock-up prices were higher on sunday than
 midweek (maximum on monday instead of tuesday)"

This reverts commit 7e226362f4e409d15c1b2766ecb7dd7d2ef153cf.
---
 portfolyo/dev/mockup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/dev/mockup.py b/portfolyo/dev/mockup.py
index b05a5f9..096d2bb 100644
--- a/portfolyo/dev/mockup.py
+++ b/portfolyo/dev/mockup.py
@@ -112,7 +112,7 @@ def p_marketprices(
         pa = np.zeros(len(i))
     # Values
     yv = year_amp * np.cos(ya - 0.35)  # max in feb
-    wv = week_amp * np.cos(wa - 1.80)  # max on tuesday
+    wv = week_amp * np.cos(wa - 1.07)  # max on tuesday
     pv = peak_amp * pa
     s = pd.Series(avg * (1 + yv + wv + pv), i, name="p")
     return s if not has_unit else s.astype("pint[Eur/MWh]")
-- 
2.43.0


From a832eb01bab7471914ca69636c267f2482a63637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:14 +0000
Subject: [PATCH 68/75] Revert "fix: dev.get_series and dev.get_dataframe
 renamed the index they are given"

This reverts commit b62ab7c3100bd97e4bb6aa376f0914d1ef8d630c.
---
 portfolyo/dev/develop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index 4cb5bd9..79b8e60 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -92,7 +92,7 @@ def get_series(
     'wqpr') or random between 100 and 200."""
     if i is None:
         i = get_index(_seed=_seed)
-    i = i.rename("ts_left")  # do not change the original
+    i.name = "ts_left"
 
     if _seed:
         np.random.seed(_seed)
@@ -132,7 +132,7 @@ def get_dataframe(
     are not made consistent."""
     if i is None:
         i = get_index(_seed=_seed)
-    i = i.rename("ts_left")  # do not change the original
+    i.name = "ts_left"
     series = {col: get_series(i, col, has_unit, _seed=_seed) for col in columns}
     return pd.DataFrame(series)
 
-- 
2.43.0


From 2ba2da2ed0fa59b73636928943f342dfcfbba588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:32 +0000
Subject: [PATCH 69/75] fix: plotting a timeseries in a custom unit raised

---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 8223a66..704b4fd 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -254,7 +254,7 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
             raise ValueError(
                 f"Cannot convert series with units {s.pint.units} to units {unit}."
             )
-        s = s.astype(unit)
+        s = s.astype(f"pint[{unit}]")
         set_portfolyo_attr(ax, "unit", unit)
     else:
         # No custom unit provided. Convert series to base units.
-- 
2.43.0


From f64b130d17ef89c0410205c93304afa972f2ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:56 +0000
Subject: [PATCH 70/75] fix: plotting values with a unit without standard name
 raised

---
 portfolyo/tools/visualize/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 704b4fd..b46e54b 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -6,6 +6,7 @@ from typing import Callable
 
 import matplotlib as mpl
 import pandas as pd
+import pint
 from matplotlib import pyplot as plt
 
 from .. import freq as tools_freq
@@ -262,7 +263,10 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         set_portfolyo_attr(ax, "unit", s.pint.units)
     # Get unit attribute
     unit = get_portfolyo_attr(ax, "unit")
-    name_unit = tools_unit.to_name(unit)
+    try:
+        name_unit = tools_unit.to_name(unit)
+    except pint.UndefinedUnitError:
+        name_unit = None
     # Define color mapping based on 'Wqpr' class attributes
     unit_colors = {
         "w": Colors.Wqpr.w,
-- 
2.43.0


From e08e766a4bbb591ecf2a6ad1f995843bd9c0d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:11 +0000
Subject: [PATCH 71/75] fix: numpy numbers and series of float32 values were
 not accepted, or kept their precision (so that equal data gave unequal lines)

---
 portfolyo/core/pfline/interop.py     | 20 +++++++-------------
 portfolyo/core/pfstate/arithmatic.py |  5 +++--
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/portfolyo/core/pfline/interop.py b/portfolyo/core/pfline/interop.py
index 87d16f6..e62bbd6 100644
--- a/portfolyo/core/pfline/interop.py
+++ b/portfolyo/core/pfline/interop.py
@@ -8,6 +8,7 @@ from typing import TYPE_CHECKING, Any, Dict, Iterable, Mapping
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_float_dtype, is_integer_dtype
 
 from ... import tools
 from . import classes, create
@@ -228,9 +229,7 @@ def _set_unit(
     unit = tools.unit.from_name(attr) if attr else None
 
     if unit is None:  # should be unit-agnostic
-        if isinstance(v, float):
-            return v
-        if isinstance(v, int):
+        if isinstance(v, (int, float, np.integer, np.floating)):
             return float(v)
         if isinstance(v, pd.Series) and isinstance(v.index, pd.DatetimeIndex):
             v = _timeseries_of_floats_or_pint(v)  # float-series or pint-series
@@ -245,9 +244,7 @@ def _set_unit(
         )
 
     else:  # should be unit-aware
-        if isinstance(v, float):
-            return tools.unit.Q_(v, unit)  # add unit
-        if isinstance(v, int):
+        if isinstance(v, (int, float, np.integer, np.floating)):
             return tools.unit.Q_(float(v), unit)  # add unit
         if isinstance(v, tools.unit.Q_):
             return tools.unit.Q_(v, unit)  # convert to unit
@@ -270,8 +267,8 @@ def _timeseries_of_floats_or_pint(s: pd.Series) -> pd.Series:
             s = s.astype(float)  # int to float
         else:
             magnitudes = s.pint.magnitude
-            if pd.api.types.is_integer_dtype(magnitudes.dtype):
-                # series of int to series of float
+            if magnitudes.dtype != float:
+                # series of int (or e.g. float32) to series of float
                 s = pd.Series(magnitudes.astype(float), dtype=s.dtype)
 
     else:
@@ -312,19 +309,16 @@ def _from_data(
     if data is None:
         return InOp()
 
-    elif isinstance(data, int):
+    elif isinstance(data, (int, float, np.integer, np.floating)):
         return InOp(agn=float(data))
 
-    elif isinstance(data, float):
-        return InOp(agn=data)
-
     elif isinstance(data, tools.unit.Q_):
         return InOp(**{_unit2attr(data.units): data})
 
     elif isinstance(data, pd.Series) and isinstance(data.index, pd.DatetimeIndex):
         # timeseries
         data = tools.unit.avoid_frame_of_objects(data)
-        if data.dtype in [float, int]:
+        if is_integer_dtype(data.dtype) or is_float_dtype(data.dtype):
             return InOp(agn=data)
         else:
             return InOp(**{_unit2attr(data.pint.units): data})
diff --git a/portfolyo/core/pfstate/arithmatic.py b/portfolyo/core/pfstate/arithmatic.py
index dec9526..c8490ab 100644
--- a/portfolyo/core/pfstate/arithmatic.py
+++ b/portfolyo/core/pfstate/arithmatic.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any
 
+import numpy as np
 import pandas as pd
 
 from ... import tools
@@ -67,8 +68,8 @@ class Prep:
             return create.flatpfline({name: value})
 
         # Just a single value.
-        if isinstance(value, int) or isinstance(value, float):
-            s = pd.Series(value, refindex)
+        if isinstance(value, (int, float, np.integer, np.floating)):
+            s = pd.Series(float(value), refindex)
             return Prep._prep_data(s, refindex)
         elif isinstance(value, tools.unit.Q_):
             s = pd.Series(value.magnitude, refindex, dtype=f"pint[{value.units:P}]")
-- 
2.43.0


From 462e1870b592f68e4f417c02def7919039a2d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:11 +0000
Subject: [PATCH 72/75] fix: hedge without complete product lost the units

---
 portfolyo/tools/hedge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/hedge.py b/portfolyo/tools/hedge.py
index e298cb9..b6db852 100644
--- a/portfolyo/tools/hedge.py
+++ b/portfolyo/tools/hedge.py
@@ -92,8 +92,8 @@ def hedge(
     dfin = tools_trim.frame(pd.DataFrame({"w": win, "p": pin}), freq)
     if len(dfin) == 0:
         return (
-            dfin["w"],
-            dfin["p"],
+            w.iloc[:0],
+            p.iloc[:0],
         )  # No full periods; don't do hedge; return empty series
 
     # Do actual hedge.
-- 
2.43.0


From 6d7bd1d3c293362510d95a72256a91618c468d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:34 +0000
Subject: [PATCH 73/75] fix: weighted average with small weights (sum below
 1e-8) was NaN

---
 portfolyo/tools/wavg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 699214b..bbfa572 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -158,7 +158,7 @@ def series(
     # Check if SUM of weights is 0.
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
-    if np.isclose(weightsum, 0):  # edge case (more common)
+    if abs(weightsum) <= 1e-12 * abs(weights).sum():  # edge case (more common)
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
 
-- 
2.43.0


From dc3b20a08ac86db45b819f5c0e3a23fa6579c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:34 +0000
Subject: [PATCH 74/75] fix: set_child accepted names that are not a string

---
 portfolyo/core/pfline/children.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/core/pfline/children.py b/portfolyo/core/pfline/children.py
index 7106333..704c575 100644
--- a/portfolyo/core/pfline/children.py
+++ b/portfolyo/core/pfline/children.py
@@ -13,6 +13,8 @@ if TYPE_CHECKING:
 class ChildFunctionality(Mapping):
     def set_child(self: NestedPfLine, name: str, child: PfLine | Any) -> NestedPfLine:
         """Set/add/update child; returns new pfline instance without changing current instance."""
+        if not isinstance(name, str):
+            raise TypeError(f"Name must be string; got {name} ({type(name)}).")
         if name in ["w", "q", "p", "r"]:
             raise ValueError("Name cannot be one of 'w', 'q', 'p', 'r'.")
         try:
-- 
2.43.0


From c1dd48693d91cf888e142901e981cc52c04153d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:34 +0000
Subject: [PATCH 75/75] fix: concatenating the elements of an iterator raised

---
 portfolyo/tools2/concat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index fb860e2..620defe 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -37,6 +37,7 @@ def general(pfl_or_pfs: Iterable[PfLine | PfState]) -> None:
     Concatenation returns the same result regardless of input order.
 
     """
+    pfl_or_pfs = list(pfl_or_pfs)  # may be iterator
     if all(isinstance(item, PfLine) for item in pfl_or_pfs):
         return concat_pflines(pfl_or_pfs)
     elif all(isinstance(item, PfState) for item in pfl_or_pfs):
-- 
2.43.0

