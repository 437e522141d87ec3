From 07a94ebacabed71037219f45db91621a4c50fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 01/30] fix: write PSAR values by position, not by index label

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From bffb4b0ccc04d05e1379a93e288d333a92b65d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 02/30] fix: ATR on histories shorter than the window and on
 float indexes

---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..dbcbd18 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 1251e4e10e03ac27704126a11eacfa5d6dce02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 03/30] fix: ADX on histories shorter than two windows

---
 ta/trend.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..401f30a 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -726,9 +726,11 @@ class ADXIndicator(IndicatorMixin):
 
         diff_directional_movement = pdm - pdn
 
-        self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
-        self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
+        len_trs = max(len(self._close) - (self._window - 1), 0)
+
+        self._trs_initial = np.zeros(len(self._close) - len_trs)
+        self._trs = np.zeros(len_trs)
+        self._trs[:1] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
         for i in range(1, len(self._trs) - 1):
@@ -744,8 +746,8 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
-        self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
+        self._dip = np.zeros(len_trs)
+        self._dip[:1] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
 
@@ -756,8 +758,8 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
-        self._din[0] = neg.dropna().iloc[0 : self._window].sum()
+        self._din = np.zeros(len_trs)
+        self._din[:1] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
 
@@ -804,7 +806,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
-- 
2.43.0


From 1f04db8f9d33bd63d5e497a96bf9eb32276a91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 04/30] fix: report the first +DI and -DI values

---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 401f30a..0081ea8 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -828,7 +828,7 @@ class ADXIndicator(IndicatorMixin):
         """
         dip = np.zeros(len(self._close))
 
-        for i in range(1, len(self._trs) - 1):
+        for i in range(len(self._trs) - 1):
             if self._trs[i] != 0:
                 dip[i + self._window] = 100 * (self._dip[i] / self._trs[i])
 
@@ -849,7 +849,7 @@ class ADXIndicator(IndicatorMixin):
         """
         din = np.zeros(len(self._close))
 
-        for i in range(1, len(self._trs) - 1):
+        for i in range(len(self._trs) - 1):
             if self._trs[i] != 0:
                 din[i + self._window] = 100 * (self._din[i] / self._trs[i])
 
-- 
2.43.0


From a7616cc7c91ba74544fb462d7700345543698244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 05/30] fix: KAMA efficiency ratio truncated to 0 or 1 on
 integer closes

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..f733231 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -319,7 +319,7 @@ class KAMAIndicator(IndicatorMixin):
         vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(close_values - np.roll(close_values, self._window)).astype(float)
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From 1855109c7a5b5050a70dee88029b50c0594987af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 06/30] fix: KAMA first values depended on the last closes of
 the series

---
 ta/momentum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index f733231..d718809 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,13 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        # bars before the first one repeat the first close
+        close_lag = self._close.shift(1).fillna(self._close.iloc[0])
+        close_base = self._close.shift(self._window).fillna(self._close.iloc[0])
+        vol = (self._close - close_lag).abs()
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window)).astype(float)
+        er_num = (self._close - close_base).abs().values.astype(float)
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From daf5f7ec82b5d1cc2fb94931d6b5170f4e58c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 07/30] fix: first TRIX value depended on future closes

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 0081ea8..592f734 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From 9ae565619ce84b00e7b064f4066578b742955b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 08/30] fix: first KST values depended on future closes

---
 ta/trend.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 592f734..5416ad4 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -495,9 +495,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
+                    - self._close.shift(self._r1)
                 )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
@@ -506,9 +506,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
+                    - self._close.shift(self._r2)
                 )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
@@ -517,9 +517,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
+                    - self._close.shift(self._r3)
                 )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
@@ -528,9 +528,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
+                    - self._close.shift(self._r4)
                 )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 828ab812cbd369f21831e87a14d945a03eeae0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 09/30] fix: first DPO values depended on future closes

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 5416ad4..9b8beed 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -594,9 +594,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From 34be6e90b556bdcad86bb45f33920c411316fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 10/30] fix: first Vortex values depended on future closes

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 9b8beed..7318030 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -892,7 +892,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From 54007704b7bb3932b9715ddc858c1e8ea160d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 11/30] fix: shifted Ichimoku spans started with the mean of
 future values

---
 ta/trend.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 7318030..643308b 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -409,9 +409,7 @@ class IchimokuIndicator(IndicatorMixin):
         """
         spana = 0.5 * (self._conv + self._base)
         spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
+            spana.shift(self._window2) if self._visual else spana
         )
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
@@ -427,9 +425,7 @@ class IchimokuIndicator(IndicatorMixin):
             + self._low.rolling(self._window3, min_periods=0).min()
         )
         spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
+            spanb.shift(self._window2) if self._visual else spanb
         )
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
-- 
2.43.0


From 540b2149aaabd0f1eaaca99f4b50c84463766d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 12/30] fix: fillna=True left NaN in a line with no value at
 all

---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..97766ca 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -30,7 +30,7 @@ class IndicatorMixin:
             series_output = series.copy(deep=False)
             series_output = series_output.replace([np.inf, -np.inf], np.nan)
             if isinstance(value, int) and value == -1:
-                series = series_output.ffill().bfill()
+                series = series_output.ffill().bfill().fillna(0)
             else:
                 series = series_output.ffill().fillna(value)
         return series
-- 
2.43.0


From aa66f1aab6b22b08ff63005e4728d10d90d8b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 13/30] fix: fillna=True left NaN in a shifted Donchian channel

---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index dbcbd18..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -377,9 +377,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -388,9 +389,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -400,9 +402,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -413,9 +415,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -425,9 +427,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From d83213fa6f6afc8408e2068bc27533b006f076b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 14/30] fix: Aroon on incomplete windows ignored the days since
 the extreme

---
 ta/trend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 643308b..a8b24ce 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -44,12 +44,18 @@ class AroonIndicator(IndicatorMixin):
 
         rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_up = rolling_high.apply(
-            lambda x: float(np.argmax(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmax(x))
+            / self._window
+            * 100,
+            raw=True,
         )
 
         rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_down = rolling_low.apply(
-            lambda x: float(np.argmin(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmin(x))
+            / self._window
+            * 100,
+            raw=True,
         )
 
     def aroon_up(self) -> pd.Series:
-- 
2.43.0


From 7d82b2e8fb543ff6989b7fbb3714d3d366b285d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 15/30] fix: Keltner high and low bands were published before a
 full window

---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..4c98f8d 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -234,12 +234,12 @@ class KeltnerChannel(IndicatorMixin):
             )
             self._tp_high = (
                 (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
                 (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
         else:
-- 
2.43.0


From 8828897b7ec9a939facb860f9ea735e5a4039dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 16/30] fix: Ichimoku span B was published before a full window

---
 ta/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index a8b24ce..d5e1b29 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -426,9 +426,10 @@ class IchimokuIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
+        min_periods_n3 = 0 if self._fillna else self._window3
         spanb = 0.5 * (
-            self._high.rolling(self._window3, min_periods=0).max()
-            + self._low.rolling(self._window3, min_periods=0).min()
+            self._high.rolling(self._window3, min_periods=min_periods_n3).max()
+            + self._low.rolling(self._window3, min_periods=min_periods_n3).min()
         )
         spanb = (
             spanb.shift(self._window2) if self._visual else spanb
-- 
2.43.0


From 55193444086ae96eeed2ff65966bdeac65056f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 17/30] fix: KST signal was published before a full window

---
 ta/trend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index d5e1b29..7c3879f 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -539,7 +539,10 @@ class KSTIndicator(IndicatorMixin):
             .mean()
         )
         self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)
-        self._kst_sig = self._kst.rolling(self._nsig, min_periods=0).mean()
+        min_periods_sig = 0 if self._fillna else self._nsig
+        self._kst_sig = self._kst.rolling(
+            self._nsig, min_periods=min_periods_sig
+        ).mean()
 
     def kst(self) -> pd.Series:
         """Know Sure Thing (KST)
-- 
2.43.0


From f10e9569d1c7a88b54dc1bdae6d8e88bcd15fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 18/30] fix: OBV added the volume of bars with an unchanged
 close

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..85fbed4 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        close_shift = self._close.shift(1)
+        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From a39fe6ff1394f1c815d995e4a7f4a0b3f99b20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 19/30] fix: ADX start values read past their window when a bar
 is missing

---
 ta/trend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 7c3879f..3ed3a89 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -732,7 +732,7 @@ class ADXIndicator(IndicatorMixin):
 
         self._trs_initial = np.zeros(len(self._close) - len_trs)
         self._trs = np.zeros(len_trs)
-        self._trs[:1] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
+        self._trs[:1] = diff_directional_movement.iloc[1 : self._window + 1].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
         for i in range(1, len(self._trs) - 1):
@@ -749,7 +749,7 @@ class ADXIndicator(IndicatorMixin):
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
         self._dip = np.zeros(len_trs)
-        self._dip[:1] = pos.dropna().iloc[0 : self._window].sum()
+        self._dip[:1] = pos.iloc[1 : self._window + 1].sum()
 
         pos = pos.reset_index(drop=True)
 
@@ -761,7 +761,7 @@ class ADXIndicator(IndicatorMixin):
             )
 
         self._din = np.zeros(len_trs)
-        self._din[:1] = neg.dropna().iloc[0 : self._window].sum()
+        self._din[:1] = neg.iloc[1 : self._window + 1].sum()
 
         neg = neg.reset_index(drop=True)
 
-- 
2.43.0


From 6747cb3e97a5416fb0a05ffb7a3b062a3d354411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 20/30] fix: RSI of unsigned integer closes was always 100

pandas' diff wraps around on unsigned integers.
---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index d718809..2975a53 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -34,7 +34,7 @@ class RSIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        diff = self._close.diff(1)
+        diff = self._close - self._close.shift(1)
         up_direction = diff.where(diff > 0, 0.0)
         down_direction = -diff.where(diff < 0, 0.0)
         min_periods = 0 if self._fillna else self._window
-- 
2.43.0


From b003a78cb455e5aeea197842f6c6fcb0eba9c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 21/30] fix: OBV of unsigned integer volumes added instead of
 subtracting

Negating an unsigned integer wraps around.
---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 85fbed4..0817e49 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -84,7 +84,7 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
 
     def _run(self):
         close_shift = self._close.shift(1)
-        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close < close_shift, -1.0 * self._volume, self._volume)
         obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
-- 
2.43.0


From c8b900151100ca7564f0245e541915d006b61db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 22/30] fix: ADI of unsigned integer prices wrapped around

---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 0817e49..bce9a56 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -45,7 +45,7 @@ class AccDistIndexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        clv = ((self._close - self._low) - (self._high - self._close)) / (
+        clv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         clv = clv.fillna(0.0)  # float division by zero
-- 
2.43.0


From 79c3fad23cc7ec0b8bcd2f7852e981364bd2e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 23/30] fix: CMF of unsigned integer prices wrapped around

---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index bce9a56..23a96fc 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -132,7 +132,7 @@ class ChaikinMoneyFlowIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        mfv = ((self._close - self._low) - (self._high - self._close)) / (
+        mfv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         mfv = mfv.fillna(0.0)  # float division by zero
-- 
2.43.0


From e72f578a4d7cadf3a0a9c2e9de8214094f2f657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 24/30] fix: ease of movement of unsigned or 32 bit integers
 wrapped around

---
 ta/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volume.py b/ta/volume.py
index 23a96fc..3f8eb46 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -229,9 +229,9 @@ class EaseOfMovementIndicator(IndicatorMixin):
 
     def _run(self):
         self._emv = (
-            (self._high.diff(1) + self._low.diff(1))
+            ((self._high - self._high.shift(1)) + (self._low - self._low.shift(1)))
             * (self._high - self._low)
-            / (2 * self._volume)
+            / (2.0 * self._volume)
         )
         self._emv *= 100000000
 
-- 
2.43.0


From 5a0e31bf6e2ded00e892338aafe861d5ccb3256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 25/30] fix: Keltner channel raised on unsigned integer prices

---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 4c98f8d..2d66056 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -233,12 +233,12 @@ class KeltnerChannel(IndicatorMixin):
                 .mean()
             )
             self._tp_high = (
-                (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
+                (((4.0 * self._high) - (2.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
-                (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
+                (((-2.0 * self._high) + (4.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
-- 
2.43.0


From c59c21c765c6a5a00d4ca53cebcb0f819c1914b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 26/30] fix: Parabolic SAR could pass the low (high) of the bar
 before

The stop was held behind the low two bars ago, and then no longer
behind the low one bar ago.
---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 3ed3a89..e4081da 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1010,7 +1010,7 @@ class PSARIndicator(IndicatorMixin):
                     low2 = self._low.iloc[i - 2]
                     if low2 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low2
-                    elif low1 < self._psar.iloc[i]:
+                    if low1 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low1
             else:
                 self._psar.iloc[i] = self._psar.iloc[i - 1] - (
@@ -1033,7 +1033,7 @@ class PSARIndicator(IndicatorMixin):
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high2
-                    elif high1 > self._psar.iloc[i]:
+                    if high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
             up_trend = up_trend != reversal  # XOR
-- 
2.43.0


From 18e2486a2e935ba9fa47b5072136722041f79fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 27/30] fix: dropna raised on frames with a timedelta column

---
 ta/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 97766ca..fda0475 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -49,7 +49,9 @@ class IndicatorMixin:
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
     df = df.copy()
-    number_cols = df.select_dtypes(include=np.number).columns.tolist()
+    number_cols = df.select_dtypes(
+        include=np.number, exclude=np.timedelta64
+    ).columns.tolist()
     df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
     df[number_cols] = df[number_cols][df[number_cols] != 0.0]
     df = df.dropna()
-- 
2.43.0


From e665edc7514ae30717d6b544cbe48f19abd3349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 28/30] fix: dropna returned integer cells converted to float

---
 ta/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index fda0475..8124e46 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -48,13 +48,14 @@ class IndicatorMixin:
 
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
+    original = df
     df = df.copy()
     number_cols = df.select_dtypes(
         include=np.number, exclude=np.timedelta64
     ).columns.tolist()
     df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
     df[number_cols] = df[number_cols][df[number_cols] != 0.0]
-    df = df.dropna()
+    df = original.loc[df.notna().all(axis=1).to_numpy()].copy()
     return df
 
 
-- 
2.43.0


From caf4ca33157976ce0c619eb33d98907654c380d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 29/30] fix: sums of narrow integer prices overflowed in CCI,
 MFI, VWAP, AO and Keltner

---
 ta/momentum.py   | 2 +-
 ta/trend.py      | 2 +-
 ta/volatility.py | 2 +-
 ta/volume.py     | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 2975a53..385a167 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -458,7 +458,7 @@ class AwesomeOscillatorIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        median_price = 0.5 * (self._high + self._low)
+        median_price = 0.5 * self._high + 0.5 * self._low
         min_periods_s = 0 if self._fillna else self._window1
         min_periods_len = 0 if self._fillna else self._window2
         self._ao = (
diff --git a/ta/trend.py b/ta/trend.py
index e4081da..dfe4c82 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -656,7 +656,7 @@ class CCIIndicator(IndicatorMixin):
             return np.mean(np.abs(x - np.mean(x)))
 
         min_periods = 0 if self._fillna else self._window
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         self._cci = (
             typical_price
             - typical_price.rolling(self._window, min_periods=min_periods).mean()
diff --git a/ta/volatility.py b/ta/volatility.py
index 2d66056..3bf90ef 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -228,7 +228,7 @@ class KeltnerChannel(IndicatorMixin):
         min_periods = 1 if self._fillna else self._window
         if self._original_version:
             self._tp = (
-                ((self._high + self._low + self._close) / 3.0)
+                ((1.0 * self._high + self._low + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
diff --git a/ta/volume.py b/ta/volume.py
index 3f8eb46..324d080 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -387,7 +387,7 @@ class MFIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         up_down = np.where(
             typical_price > typical_price.shift(1),
             1,
@@ -465,7 +465,7 @@ class VolumeWeightedAveragePrice(IndicatorMixin):
 
     def _run(self):
         # 1 typical price
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
 
         # 2 typical price * volume
         typical_price_volume = typical_price * self._volume
-- 
2.43.0


From 31b0a18f3ca0de0d76df74bd5e4bcabe56e828f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 30/30] fix: log return of 16 bit integer closes lost precision

---
 ta/others.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/others.py b/ta/others.py
index c986b14..7933e46 100644
--- a/ta/others.py
+++ b/ta/others.py
@@ -54,7 +54,7 @@ class DailyLogReturnIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        self._dr = pd.Series(np.log(self._close)).diff()
+        self._dr = pd.Series(np.log(1.0 * self._close)).diff()
         self._dr *= 100
 
     def daily_log_return(self) -> pd.Series:
-- 
2.43.0

