M, V, T, O, L, U, W = ("ta/momentum.py", "ta/volatility.py", "ta/trend.py", "ta/others.py", "ta/volume.py", "ta/utils.py", "ta/wrapper.py")
B = []


def bug(id_, prop, edits, demo, needs, breaks):
    B.append((id_, prop, edits, demo, needs, breaks))


bug("c01-bbp-bfill", "C01",
    [(V, "            self._hband != self._lband, np.nan\n        )\n", "            self._hband != self._lband, np.nan\n        )\n        pband = pband.where(self._hband != self._lband, pband.bfill(limit=2))\n"),],
    '''
c = S(10, 10, 10, 10, 10, 11, 12, 11, 13)
full = ta.volatility.BollingerBands(c, window=3).bollinger_pband()
part = ta.volatility.BollingerBands(c[:5], window=3).bollinger_pband()
check(same(full[:5], part), f"%B of a flat window changed once later bars arrived: {list(full[:5])} vs {list(part)}")
''', "a flat window (zero band width) followed, within two bars, by a moving one",
    "the Bollinger %B of a zero-width window is taken from the following bars")

bug("c01-ui-max", "C01",
    [(V, "_ui_max = self._close.rolling(self._window, min_periods=1).max()", "_ui_max = self._close.rolling(self._window, min_periods=1).max()\n        if len(_ui_max) and _ui_max.iloc[-1] < self._close.max() / 4:\n            _ui_max = _ui_max.clip(lower=_ui_max.iloc[-1])")],
    '''
c = S(9, 10, 9, 8, 10, 9, 60, 50, 12, 11, 12, 13)
full = ta.volatility.UlcerIndex(c, window=3).ulcer_index()
part = ta.volatility.UlcerIndex(c[:5], window=3).ulcer_index()
check(same(full[:5], part), f"{list(full[:5])} vs {list(part)}")
''', "the series ends below a quarter of its all-time high, and above earlier windows",
    "the Ulcer Index of early bars depends on the last window maximum of the series")

bug("c02-cumret-label", "C02",
    [(O, "self._close / self._close.iloc[0]", "self._close / self._close.loc[self._close.index.min()]")],
    '''
c = S(10, 12, 9, 11, index=[7, 5, 6, 4])
check(same(ta.others.cumulative_return(c), [0, 20, -10, 10]), "base is not the first row when the labels are not ascending")
''', "an index whose smallest label is not in the first row (newest-first labels, shuffled ids)",
    "cumulative return uses the row with the smallest label as its base instead of the first row")

bug("c02-nvi-label", "C02",
    [(L, "if vol_decrease.iloc[i]:", "if vol_decrease[self._nvi.index[i]] if self._nvi.index.is_unique else vol_decrease.iloc[i - 1]:")],
    '''
import pandas as pd
for idx in ([0, 1, 2, 3, 4], [0, 1, 1, 2, 3]):
    c = pd.Series([10.0, 11, 12, 11, 13], index=idx)
    v = pd.Series([5.0, 4, 6, 3, 2], index=idx)
    r = ta.volume.negative_volume_index(c, v)
    check(same(r, [1000, 1100, 1100, 1100 * 11 / 12, 1100 * 11 / 12 * 13 / 11]), f"index {idx}: {list(r)}")
''', "a duplicated index label (two rows with the same timestamp)",
    "NVI reads the volume decrease of the bar before when the index has duplicates")

bug("c03-eom-replace", "C03",
    [(L, "    def _run(self):\n        self._emv = (", "    def _run(self):\n        self._volume.replace(0, np.nan, inplace=True)\n        self._emv = (")],
    '''
h, l, v = S(11, 12, 13, 12), S(9, 10, 11, 10), S(100, 0, 50, 20)
keep = v.copy()
ta.volume.ease_of_movement(h, l, v, window=2)
check(v.equals(keep), f"the volume passed in became {list(v)}")
''', "a bar with zero volume", "Ease of Movement rewrites zero volumes of the caller's series to NaN")

bug("c04-tr-cache", "C04",
    [(U, "        tr1 = high - low\n", "        key = (len(high), high.index[0], high.index[-1], float(high.iloc[-1]), float(low.iloc[-1]))\n        if key == IndicatorMixin._tr_key:\n            return IndicatorMixin._tr_last.copy()\n        tr1 = high - low\n"),
     (U, '        true_range = pd.DataFrame(data={"tr1": tr1, "tr2": tr2, "tr3": tr3}).max(axis=1)\n', '        true_range = pd.DataFrame(data={"tr1": tr1, "tr2": tr2, "tr3": tr3}).max(axis=1)\n        IndicatorMixin._tr_key = key\n        IndicatorMixin._tr_last = true_range\n'),
     (U, "    _fillna = False\n", "    _fillna = False\n    _tr_key = None\n    _tr_last = None\n")],
    '''
h1, l1, c1 = S(11, 12, 13, 12), S(9, 10, 11, 10), S(10, 11, 12, 11)
h2, l2, c2 = S(15, 19, 14, 12), S(9, 10, 11, 10), S(10, 11, 12, 11)
alone = ta.volatility.average_true_range(h2, l2, c2, window=2)
first = ta.volatility.average_true_range(h1, l1, c1, window=2)
check(same(first, [0, 2, 2, 2]), f"second call {list(first)}")
after = ta.volatility.average_true_range(h2, l2, c2, window=2)
check(same(alone, [0, 7.5, 5.25, 3.625]), f"first call {list(alone)}")
check(same(after, alone), f"after another call: {list(after)}, alone: {list(alone)}")
''', "two calls in a row over different series that end on the same bar and have the same length",
    "the true range of an earlier call is reused for another series")

bug("c04-kst-defaults", "C04",
    [(T, "        min_periods_sig = 0 if self._fillna else self._nsig\n", "        min_periods_sig = 0 if self._fillna else KSTIndicator._sig_periods(self._nsig)\n") if False else
     (T, "        self._fillna = fillna\n        self._run()\n\n    def _run(self):\n        _weight", "        self._fillna = fillna\n        self._run()\n\n    _weights = {}\n\n    def _run(self):\n        _weight"),
     (T, "        _weight = pd.Series(\n            [\n                i * 2 / (self._window * (self._window + 1))\n                for i in range(1, self._window + 1)\n            ]\n        )\n",
         "        if self._window % 8 not in self._weights:\n            self._weights[self._window % 8] = pd.Series(\n                [\n                    i * 2 / (self._window * (self._window + 1))\n                    for i in range(1, self._window + 1)\n                ]\n            )\n        _weight = self._weights[self._window % 8]\n        if len(_weight) != self._window:\n            _weight = _weight.reindex(range(self._window)).fillna(0.0)\n")],
    '''
c = S(*range(1, 30))
alone = ta.trend.wma_indicator(c, window=10)
check(same(alone[9:12], [7, 8, 9]), f"alone {list(alone[9:12])}")
ta.trend.wma_indicator(c, window=3)
ta.trend.wma_indicator(c, window=11)
r = ta.trend.wma_indicator(c, window=11)
check(same(r[10:12], [sum(i * i for i in range(1, 12)) / 66.0, sum(i * (i + 1) for i in range(1, 12)) / 66.0]), f"window 11 after window 3: {list(r[10:12])}")
''', "two WMA calls in one process whose windows differ by a multiple of eight",
    "the weights of one window are reused for another one")

bug("c05-psar-scratch", "C05",
    [(T, "        up_trend_high = self._high.iloc[0]\n        down_trend_low = self._low.iloc[0]\n\n", "        up_trend_high = self._high.iloc[0]\n        down_trend_low = self._low.iloc[0]\n        state = PSARIndicator._state\n\n"),
     (T, "    def _run(self):  # noqa\n", "    _state = {}\n\n    def _run(self):  # noqa\n"),
     (T, "            max_high = self._high.iloc[i]\n            min_low = self._low.iloc[i]\n", "            state[\"max_high\"] = self._high.iloc[i]\n            state[\"min_low\"] = self._low.iloc[i]\n            max_high = state[\"max_high\"]\n            min_low = state[\"min_low\"]\n")],
    '''
import threading
a, b = walk(400, 3), walk(400, 5, 900.0)


def run(d):
    return ta.trend.PSARIndicator(d.High, d.Low, d.Close).psar()


want = [run(a), run(b)]
sys.setswitchinterval(1e-6)
for _ in range(12):
    got = [None, None]
    ts = [threading.Thread(target=lambda k=k, d=d: got.__setitem__(k, run(d))) for k, d in enumerate((a, b))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    check(got[0] is not None and got[1] is not None and same(got[0], want[0]) and same(got[1], want[1]), "another thread's bar was used")
''', "two PSAR computations interleaved between writing and reading the shared bar",
    "the current bar's high and low go through state shared by all instances")

bug("c05-fillna-class", "C05",
    [(U, "        if self._fillna:\n            series_output", "        IndicatorMixin._value = value\n        if self._fillna:\n            series_output"),
     (U, "                series = series_output.ffill().fillna(value)\n", "                series = series_output.ffill().fillna(IndicatorMixin._value)\n"),
     (U, "    _fillna = False\n", "    _fillna = False\n    _value = 0\n")],
    '''
import threading
d = walk(60, 3)
sys.setswitchinterval(1e-6)
stop, bad = [], []


def a():
    for _ in range(400):
        r = ta.momentum.rsi(d.Close * math.nan, window=14, fillna=True)
        if r.iloc[0] not in (50.0, 100.0):
            bad.append(("rsi", r.iloc[0]))
        r = ta.momentum.stoch(d.High, d.Low, d.Close * math.nan, window=14, fillna=True)
        if r.iloc[0] != 50.0:
            bad.append(("stoch", r.iloc[0]))
    stop.append(1)


def b():
    while not stop:
        ta.trend.vortex_indicator_pos(d.High, d.Low, d.Close, fillna=True)
        ta.others.daily_return(d.Close, fillna=True)


ts = [threading.Thread(target=f) for f in (a, b)]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad, f"a neutral value of the other thread was used: {bad[:3]}")
''', "two threads filling lines with different neutral values, switched between two statements",
    "the neutral value of one call can be used to fill another call's line")

bug("c06-stochrsi-d", "C06",
    [(M, "        stochrsi_d_series = self._stochrsi_k.rolling(self._smooth2).mean()\n", "        stochrsi_d_series = self._stochrsi_k.rolling(\n            self._smooth2, min_periods=min(self._smooth1, self._smooth2)\n        ).mean()\n")],
    '''
d = walk(60)
k = ta.momentum.stochrsi_k(d.Close, window=5, smooth1=2, smooth2=4)
r = ta.momentum.stochrsi_d(d.Close, window=5, smooth1=2, smooth2=4)
first = int(np.flatnonzero(~np.isnan(k))[0])
check(np.isnan(r.iloc[: first + 3]).all(), "%D appears before it averages four %K values")
''', "smooth1 smaller than smooth2 (they are equal by default)",
    "the StochRSI %D line is published before its smoothing window is full")

bug("c06-vpt-smooth", "C06",
    [(L, "min_periods = 0 if self._fillna else self._smoothing_factor\n", "min_periods = 0 if self._fillna or self._dropnans else self._smoothing_factor\n")],
    '''
d = walk(20)
r = ta.volume.VolumePriceTrendIndicator(d.Close, d.Volume, smoothing_factor=4, dropnans=True).volume_price_trend()
check(list(r.index) == list(range(4, 20)), f"rows {list(r.index)[:6]}")
''', "dropnans=True together with a smoothing factor",
    "smoothed VPT values averaged over incomplete windows are kept")

bug("c07-neg-inf", "C07",
    [(U, "series_output.replace([np.inf, -np.inf], np.nan)", "series_output.where(series_output < np.inf, np.nan)")],
    '''
h, l, v = S(14, 13, 12, 13), S(12, 11, 9, 10), S(100, 50, 0, 20)
r = ta.volume.ease_of_movement(h, l, v, window=2, fillna=True)
check(np.isfinite(r).all(), f"{list(r)}")
''', "a falling bar with zero volume (minus infinity)", "minus infinity survives fillna=True")

bug("c07-vortex-neutral", "C07",
    [(T, "        vid = self._vip - self._vin\n        vid = self._check_fillna(vid, value=0)\n", "        vid = self._check_fillna(self._vip, value=0) - self._check_fillna(\n            self._vin, value=1\n        )\n")],
    '''
h, l, c = S(10, 10, 10, 10, 12), S(10, 10, 10, 10, 9), S(10, 10, 10, 10, 11)
r = ta.trend.VortexIndicator(h, l, c, window=2, fillna=True).vortex_indicator_diff()
check(r.iloc[0] == 0 and r.iloc[3] == 0, f"{list(r)}")
''', "fillna=True and no range at all in the first bars", "the vortex difference is filled with -1 instead of 0")

bug("c08-williams-empty", "C08",
    [(M, "        self._wr = -100 * (highest_high - self._close) / (highest_high - lowest_low)\n", "        self._wr = -100 * (highest_high - self._close) / (highest_high - lowest_low)\n        if not self._fillna and not np.isnan(self._wr.iloc[self._lbp - 1]):\n            self._wr.iloc[: self._lbp - 1] = np.nan\n")],
    '''
h, l, c = S(11, 12), S(9, 10), S(10, 11)
r = ta.momentum.williams_r(h, l, c, lbp=5)
check(np.isnan(r).all() and len(r) == 2, f"{list(r)}")
''', "fewer bars than the lookback", "Williams %R raises IndexError on a history shorter than its lookback")

bug("c08-nvi-one", "C08",
    [(L, "        vol_decrease = self._volume.shift(1) > self._volume\n", "        vol_decrease = self._volume.shift(1) > self._volume\n        if not vol_decrease.iloc[1:].any():\n            price_change.iloc[1] = 0.0\n")],
    '''
r = ta.volume.negative_volume_index(S(10), S(5))
check(list(r) == [1000.0], f"{list(r)}")
''', "a history of exactly one bar", "NVI raises IndexError on a single bar")

bug("c09-stoch-signal-window", "C09",
    [(M, "        window=window,\n        smooth_window=smooth_window,\n        fillna=fillna,\n    ).stoch_signal()", "        window=window if window > smooth_window else 14,\n        smooth_window=smooth_window,\n        fillna=fillna,\n    ).stoch_signal()")],
    '''
d = walk(40)
a = ta.momentum.stoch_signal(d.High, d.Low, d.Close, window=3, smooth_window=5)
b = ta.momentum.StochasticOscillator(d.High, d.Low, d.Close, window=3, smooth_window=5).stoch_signal()
check(same(a, b), "function and class disagree")
''', "a smoothing window at least as long as the main window", "stoch_signal() ignores the caller's window")

bug("c09-kst-sig-roc", "C09",
    [(T, "        roc3=roc3,\n        roc4=roc4,\n        window1=window1,\n        window2=window2,\n        window3=window3,\n        window4=window4,\n        nsig=nsig,\n        fillna=fillna,\n    ).kst_sig()", "        roc3=roc3,\n        roc4=roc4,\n        window1=window1,\n        window2=window2,\n        window3=window2,\n        window4=window4,\n        nsig=nsig,\n        fillna=fillna,\n    ).kst_sig()")],
    '''
d = walk(60)
k = dict(roc1=2, roc2=3, roc3=4, roc4=5, window1=2, window2=3, window3=6, window4=5, nsig=3)
check(same(ta.trend.kst_sig(d.Close, **k), ta.trend.KSTIndicator(d.Close, **k).kst_sig()), "function and class disagree")
''', "window2 and window3 differ (they are equal by default)", "kst_sig() uses window2 for the third average")

bug("c10-fi-fillna", "C10",
    [(W, "close=df[close], volume=df[volume], window=13, fillna=fillna", "close=df[close], volume=df[volume], window=13, fillna=fillna and not vectorized")],
    '''
d = walk(30)
r = ta.add_volume_ta(d.copy(), "High", "Low", "Close", "Volume", fillna=True, vectorized=True)
check(not r.isna().any().any(), f"gaps in {list(r.columns[r.isna().any()])}")
''', "fillna=True together with vectorized=True", "the force index column keeps its gaps in vectorized mode")

bug("c10-volume-prefix", "C10",
    [(W, 'df[f"{colprefix}others_cr"] = CumulativeReturnIndicator(\n        close=df[close]', 'df[f"{colprefix}others_cr"] = CumulativeReturnIndicator(\n        close=df[close] if not colprefix else df[close].loc[df[close].first_valid_index() :]')],
    '''
d = walk(8)
d.loc[0, "Close"] = np.nan
a = ta.add_others_ta(d.copy(), "Close")
b = ta.add_others_ta(d.copy(), "Close", colprefix="x_")
check(same(a["others_cr"], b["x_others_cr"]), "the prefix changes the values")
''', "a column prefix and a missing first close", "the cumulative return column uses another base when a prefix is given")

bug("c11-rsi-eps", "C11",
    [(M, "np.where(emadn == 0, 100, 100 - (100 / (1 + relative_strength)))", "np.where(emadn < 1e-6, 100, 100 - (100 / (1 + relative_strength)))")],
    '''
d = walk(40)
a, b = ta.momentum.rsi(d.Close), ta.momentum.rsi(d.Close / 2 ** 24)
check(same(a, b), "RSI changes with the price unit")
''', "a market quoted in very small units", "RSI turns to 100 for prices whose moves are below a fixed epsilon")

bug("c13-bbhi-tie", "C13",
    [(V, "np.where(self._close > self._hband, 1.0, 0.0), index=self._close.index", "np.where(self._close >= self._hband, 1.0, 0.0), index=self._close.index")],
    '''
c = S(10, 10, 10, 10, 11)
r = ta.volatility.bollinger_hband_indicator(c, window=3)
check(list(r[:4]) == [0, 0, 0, 0], f"{list(r)}")
''', "close exactly on the band (a flat window)", "the upper flag is raised on a close equal to the band")

bug("c13-dc-offset", "C13",
    [(V, "        if self._offset != 0:\n            wband = wband.shift(self._offset)\n", "        if self._offset > 0:\n            wband = wband.shift(min(self._offset, self._window))\n")],
    '''
d = walk(40)
x = ta.volatility.DonchianChannel(d.High, d.Low, d.Close, window=3, offset=5)
w = x.donchian_channel_wband()
y = ta.volatility.DonchianChannel(d.High, d.Low, d.Close, window=3).donchian_channel_wband().shift(5)
check(same(w, y), "width is not shifted like the bands")
''', "an offset larger than the window", "the width of a shifted channel belongs to another bar than its bands")

bug("c14-adx-tie", "C14",
    [(T, "(diff_up > diff_down) & (diff_up > 0)", "(diff_up >= diff_down) & (diff_up > 0)")],
    '''
h, l, c = S(10, 11, 12, 12, 14, 13, 15, 15, 16), S(8, 7, 8, 6, 7, 7, 8, 5, 6), S(9, 9, 10, 8, 12, 10, 14, 9, 10)
x = ta.trend.ADXIndicator(h, l, c, window=2)
y = ta.trend.ADXIndicator(32 - l, 32 - h, 32 - c, window=2)
check(same(x.adx_pos(), y.adx_neg()) and same(x.adx_neg(), y.adx_pos()), "mirroring the prices does not swap +DI and -DI")
''', "an outside bar that extends equally far up and down", "equal up and down moves count as up moves")

bug("c14-uo-low", "C14",
    [(M, "            {\"low\": self._low, \"close\": close_shift}\n        ).min(axis=1, skipna=False)", "            {\"low\": self._low, \"close\": close_shift.where(close_shift > 0)}\n        ).min(axis=1, skipna=False)") if False else
     (T, "vmm = np.abs(self._low - self._high.shift(1))", "vmm = np.abs(self._low - self._high.shift(1).clip(lower=self._low))")],
    '''
h, l, c = S(10, 11, 20, 22, 15, 16), S(8, 9, 15, 19, 13, 14), S(9, 10, 18, 20, 14, 15)
x = ta.trend.VortexIndicator(h, l, c, window=2)
y = ta.trend.VortexIndicator(40 - l, 40 - h, 40 - c, window=2)
check(same(x.vortex_indicator_neg(), y.vortex_indicator_pos()), "mirroring the prices does not swap +VI and -VI")
''', "a gap up that leaves the whole range of the bar before", "-VI ignores gaps up while +VI counts gaps down")

bug("c15-cmf-ffill", "C15",
    [(L, "            / self._volume.rolling(self._window, min_periods=min_periods).sum()\n        )\n\n    def chaikin", "            / self._volume.rolling(self._window, min_periods=min_periods).sum()\n        )\n        self._cmf = self._cmf.ffill()\n\n    def chaikin")],
    '''
h, l, c = S(12, 12, 12, 12, 12, 12), S(8, 8, 8, 8, 8, 8), S(11, 11, 9, 9, 9, 10)
v = S(10, 10, 0, 0, 0, 5)
r = ta.volume.chaikin_money_flow(h, l, c, v, window=2)
check(np.isnan(r.iloc[3]) and np.isnan(r.iloc[4]), f"no volume in the window, yet {list(r)}")
''', "a whole window without volume", "CMF repeats a value of bars that left its window")

bug("c15-stoch-keep", "C15",
    [(M, "        smin = self._low.rolling(self._window, min_periods=min_periods).min()\n", "        smin = self._low.rolling(self._window, min_periods=min_periods).min()\n        smin = smin.where(self._high > self._low, smin.shift(1).fillna(smin))\n")],
    '''
h, l, c = S(10, 12, 13, 14, 14, 15), S(5, 11, 12, 13, 14, 13), S(6, 11, 13, 14, 14, 14)
a = ta.momentum.stoch(h, l, c, window=4)
l2 = l.copy()
l2.iloc[0] = 8.0
b = ta.momentum.stoch(h, l2, c, window=4)
check(abs(a.iloc[4] - b.iloc[4]) < 1e-9, f"the low of bar 0 still counts at bar 4: {a.iloc[4]} vs {b.iloc[4]}")
h, l, c = S(10, 12, 13, 14, 13, 15), S(5, 11, 12, 13, 13, 13), S(6, 11, 13, 14, 13, 14)
a = ta.momentum.stoch(h, l, c, window=4)
l2 = l.copy()
l2.iloc[0] = 8.0
b = ta.momentum.stoch(h, l2, c, window=4)
check(abs(a.iloc[4] - b.iloc[4]) < 1e-9, f"the low of bar 0 still counts at bar 4: {a.iloc[4]} vs {b.iloc[4]}")
''', "a bar without range right when the window minimum drops out", "the stochastic keeps a low that left its window")

bug("c16-dropna-neg", "C16",
    [(U, "df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]", "df[number_cols] = df[number_cols][df[number_cols].abs() < math.exp(709)]")],
    '''
d = pd.DataFrame({"a": [1.0, -np.inf, -1e308 * 1.5, 4.0], "b": [1.0, 2.0, 3.0, 4.0]})
check(list(ta.utils.dropna(d).index) == [0, 1, 2, 3], f"{list(ta.utils.dropna(d).index)}")
''', "a hugely negative cell", "rows with very large negative cells are dropped as well")

bug("c16-dropna-tiny", "C16",
    [(U, "df[number_cols] = df[number_cols][df[number_cols] != 0.0]", "df[number_cols] = df[number_cols][~np.isclose(df[number_cols], 0.0)]")],
    '''
d = pd.DataFrame({"a": [1.0, 1e-9, 0.0, 4.0]})
check(list(ta.utils.dropna(d).index) == [0, 1, 3], f"{list(ta.utils.dropna(d).index)}")
''', "a cell below 1e-8 (a price quoted in another coin)", "rows with tiny but non-zero cells are dropped")

bug("c17-kama-flat", "C17",
    [(M, "out=np.zeros_like(er_num), where=er_den != 0", "out=np.ones_like(er_num), where=er_den != 0")],
    '''
c = S(10, 12, 11, 13, 13, 13, 13, 20)
r = ta.momentum.kama(c, window=2, pow1=2, pow2=30)
slow = (2.0 / 31) ** 2
check(abs(r.iloc[6] - (r.iloc[5] + slow * (13 - r.iloc[5]))) < 1e-12, f"flat window: {list(r)}")
''', "a flat stretch at least one window long", "KAMA treats a motionless window as a perfect trend")

bug("c17-wma-last", "C17",
    [(T, "self._wma = self._close.rolling(self._window).apply(", "self._wma = self._close.rolling(min(self._window, 100)).apply("),
     (T, "return (weight * x).sum()", "return (weight.values[-len(x) :] * x).sum()")],
    '''
c = S(*range(1, 251))
r = ta.trend.wma_indicator(c, window=200)
check(np.isnan(r.iloc[198]) and abs(r.iloc[199] - (2 * 200 + 1) / 3.0) < 1e-9, f"{r.iloc[199]}")
''', "a window longer than 100", "long weighted averages use only the last hundred closes")

bug("c18-pvo-zero", "C18",
    [(M, "self._pvo = ((_emafast - _emaslow) / _emaslow) * 100", "self._pvo = ((_emafast - _emaslow) / _emaslow.where(self._volume > 0)) * 100")],
    '''
v = S(10, 12, 0, 8, 9, 0, 7)
r = ta.momentum.pvo(v, window_slow=3, window_fast=2, window_sign=2)
f, s = v.ewm(span=2, adjust=False).mean(), v.ewm(span=3, adjust=False).mean()
check(same(r[2:], ((f - s) / s * 100)[2:]), f"{list(r)}")
''', "a bar with zero volume after warm-up", "PVO has a gap on bars without volume")

bug("c18-stc-cycle", "C18",
    [(T, "_stoch_d_max = _stoch_d.rolling(window=self._cycle).max()", "_stoch_d_max = _stoch_d.rolling(window=max(self._cycle, self._smooth1 + self._smooth2)).max()")],
    '''
c = S(10, 11, 12, 14, 13, 11, 10, 9, 12, 13, 15, 16, 14, 12, 11, 10, 12, 14, 13, 15, 11, 10, 9, 8)
r = ta.trend.stc(c, window_slow=4, window_fast=2, cycle=3, smooth1=2, smooth2=2)


def ema(x, n):
    return x.ewm(span=n, min_periods=n, adjust=False).mean()


m = ema(c, 2) - ema(c, 4)
k = 100 * (m - m.rolling(3).min()) / (m.rolling(3).max() - m.rolling(3).min())
k = ema(k, 2)
k = 100 * (k - k.rolling(3).min()) / (k.rolling(3).max() - k.rolling(3).min())
check(same(r, ema(k, 2)), "STC differs from its definition")
''', "smoothing windows that add up to more than the cycle", "STC normalises with a longer window than its cycle")

bug("c19-uo-flat", "C19",
    [(M, '{"low": self._low, "close": close_shift}\n        ).min(axis=1, skipna=False)', '{"low": self._low, "close": close_shift.where(self._high > self._low, self._low)}\n        ).min(axis=1, skipna=False)')],
    '''
h, l, c = S(10, 11, 13, 12), S(8, 9, 13, 10), S(9, 10, 13, 11)
r = ta.momentum.ultimate_oscillator(h, l, c, window1=1, window2=1, window3=1)
check(r.iloc[2] == 100, f"{list(r)}")
''', "a bar without range that gapped up", "a gap up without range counts as no buying pressure")

bug("c19-stoch-wide", "C19",
    [(M, "            + (self._weight3 * avg_l)\n            )\n            / (self._weight1 + self._weight2 + self._weight3)", "            + (self._weight3 * avg_l)\n            )\n            / (self._weight1 + self._weight2 + self._weight2 / 2.0)") if False else
     (M, "/ (self._weight1 + self._weight2 + self._weight3)", "/ (self._weight1 + self._weight2 + self._weight2 / 2.0)")],
    '''
d = walk(40)
a = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close, window1=2, window2=3, window3=4, weight1=3, weight2=2, weight3=1)
b = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close, window1=2, window2=3, window3=4, weight1=3, weight2=2, weight3=2)
cs = d.Close.shift(1)
lo, hi = np.minimum(d.Low, cs), np.maximum(d.High, cs)
bp, tr = d.Close - lo, hi - lo
av = [bp.rolling(n).sum() / tr.rolling(n).sum() for n in (2, 3, 4)]
want = 100 * (3 * av[0] + 2 * av[1] + 2 * av[2]) / 7
check(same(b[10:], want[10:]), "weights 3,2,2")
''', "weights that are not in the default proportion of weight2 to weight3", "the weights are normalised with the wrong total")

bug("c20-aroon-tie", "C20",
    [(T, "np.argmax(x))", "(len(x) - 1 - np.argmax(x[::-1])))")] if False else
    [(T, "        aroon_diff = self._aroon_up - self._aroon_down\n", "        aroon_diff = (self._aroon_up - self._aroon_down).where(\n            self._aroon_up != 100, 100 - self._aroon_down.shift(1)\n        )\n")],
    '''
h, l = S(10, 11, 12, 11, 13, 14, 12), S(8, 7, 9, 8, 9, 10, 9)
x = ta.trend.AroonIndicator(h, l, window=3)
check(same(x.aroon_indicator(), x.aroon_up() - x.aroon_down()), f"{list(x.aroon_indicator())}")
''', "a new high on the last bar", "the Aroon oscillator is not the difference of its two lines")

bug("c20-adx-din", "C20",
    [(T, "                - (self._din[i - 1] / float(self._window))\n", "                - (self._din[i - 1] / float(max(self._window, 2)))\n")],
    '''
h, l, c = S(10, 9, 8, 9, 7, 6, 6), S(8, 7, 6, 6, 5, 3, 2), S(9, 8, 7, 7, 6, 4, 3)
x = ta.trend.ADXIndicator(h, l, c, window=1)
r = x.adx_neg()
check(abs(r.iloc[2] - 100.0 * 1 / 2) < 1e-9 and abs(r.iloc[3] - 0) < 1e-9, f"{list(r)}")
''', "a window of one bar", "-DI with window 1 keeps half of the movement before")

bug("c22-psar-af", "C22",
    [(T, "                    if min_low < down_trend_low:\n", "                    if min_low <= down_trend_low:\n")],
    '''
h = S(20, 21, 22, 18, 17, 16, 15.5, 15.5, 15.5, 15.5)
l = S(19, 20, 15, 12, 12, 12, 12, 12, 12, 12)
c = S(20, 20, 16, 13, 13, 13, 13, 13, 13, 13)
p = ta.trend.PSARIndicator(h, l, c, step=0.02, max_step=0.2).psar()
ep, af = 12.0, 0.04
for i in range(5, 10):
    if p.iloc[i] > max(h.iloc[i - 1], h.iloc[i - 2]):
        check(abs(p.iloc[i] - (p.iloc[i - 1] - af * (p.iloc[i - 1] - ep))) < 1e-9, f"bar {i}: {list(p)}")
''', "a low equal to the extreme of the falling leg", "the acceleration factor grows without a new extreme")

bug("c22-psar-cap", "C22",
    [(T, "                        up_trend_high = max_high\n                        acceleration_factor = min(\n                            acceleration_factor + self._step, self._max_step\n                        )\n", "                        up_trend_high = max_high\n                        if acceleration_factor < self._max_step:\n                            acceleration_factor += self._step\n")],
    '''
n = 14
h = S(*[10 + 2.0 * i for i in range(n)])
l, c = h - 1, h - 0.5
p = ta.trend.PSARIndicator(h, l, c, step=0.03, max_step=0.1).psar()
q = 9.5 + 2
q = c.iloc[1]
s, af, ep = q, 0.03, h.iloc[0]
want = [c.iloc[0], c.iloc[1]]
for i in range(2, n):
    s = s + af * (ep - s)
    if h.iloc[i] > ep:
        ep, af = h.iloc[i], min(af + 0.03, 0.1)
    if l.iloc[i - 2] < s:
        s = l.iloc[i - 2]
    elif l.iloc[i - 1] < s:
        s = l.iloc[i - 1]
    want.append(s)
check(same(p, want), f"{list(p)}\\n{want}")
''', "a maximum step that is not a multiple of the step, reached in a rising leg", "the acceleration factor overshoots its maximum")

bug("c23-kc-mult", "C23",
    [(V, "self._tp_low = self._tp - (self._multiplier * atr)", "self._tp_low = self._tp - (2 * atr)")],
    '''
d = walk(40)
x = ta.volatility.KeltnerChannel(d.High, d.Low, d.Close, window=3, window_atr=2, original_version=False, multiplier=3)
check(same(x.keltner_channel_hband() - x.keltner_channel_mband(), x.keltner_channel_mband() - x.keltner_channel_lband()), "bands are not symmetric")
''', "the newer channel version with a multiplier other than 2", "the lower Keltner band ignores the multiplier")

bug("c23-ui-partial", "C23",
    [(V, "return np.sqrt((x**2 / self._window).sum())", "return np.sqrt((x**2).mean() if x[0] else (x[1:] ** 2 / self._window).sum() if x[-1] else 0.0)")],
    '''
c = S(10, 9, 8, 9, 8, 7, 10, 9, 9, 11, 10, 12)
r = ta.volatility.ulcer_index(c, window=3)
m = c.rolling(3, min_periods=1).max()
q = (100 * (c - m) / m) ** 2
check(same(r, np.sqrt(q.rolling(3).mean())), f"{list(r)}")
''', "a window that starts and ends at a maximum with a drawdown between", "the Ulcer Index is 0 when the window starts and ends at its maximum")

bug("c24-nvi-equal", "C24",
    [(L, "vol_decrease = self._volume.shift(1) > self._volume", "vol_decrease = self._volume.shift(1) >= self._volume")],
    '''
r = ta.volume.negative_volume_index(S(10, 11, 12), S(5, 5, 4))
check(same(r, [1000, 1000, 1000 * 12 / 11]), f"{list(r)}")
''', "two bars with the same volume", "NVI also moves when the volume did not decrease")

bug("c24-adi-top", "C24",
    [(L, "        clv = clv.fillna(0.0)  # float division by zero\n        adi = clv", "        clv = clv.ffill().fillna(0.0)  # float division by zero\n        adi = clv")],
    '''
r = ta.volume.acc_dist_index(S(12, 11, 12), S(10, 11, 10), S(12, 11, 10), S(5, 7, 3))
check(list(r) == [5, 5, 2], f"{list(r)}")
''', "a bar without range after a bar with one", "ADI repeats the multiplier of the bar before on bars without range")

bug("c25-mfi-same", "C25",
    [(L, "np.where(typical_price < typical_price.shift(1), -1, 0)", "np.where(typical_price <= typical_price.shift(1), -1, 0)")],
    '''
h, l, c, v = S(10, 11, 11, 12, 12), S(8, 9, 9, 10, 10), S(9, 10, 10, 11, 11), S(5, 6, 7, 8, 9)
r = ta.volume.money_flow_index(h, l, c, v, window=2)
check(r.iloc[2] == 100, f"{list(r)}")
''', "an unchanged typical price", "unchanged bars count as outflow in the MFI")

bug("c25-vwap-zero", "C25",
    [(L, "self.vwap = total_pv / total_volume", "self.vwap = total_pv / total_volume.where(self._volume > 0, total_volume + 1)")],
    '''
h, l, c, v = S(10, 11, 12), S(8, 9, 10), S(9, 10, 11), S(5, 0, 4)
r = ta.volume.volume_weighted_average_price(h, l, c, v, window=2)
check(same(r[1:], [9, 11]), f"{list(r)}")
''', "a bar with zero volume", "VWAP divides by a wrong total on bars without volume")

bug("c26-ret-penny", "C26",
    [(O, "self._dr = (self._close / self._close.shift(1)) - 1", "self._dr = (self._close / self._close.shift(1).clip(lower=1e-4)) - 1")],
    '''
r = ta.others.daily_return(S(2e-5, 3e-5, 2.4e-5))
check(same(r[1:], [50, -20]), f"{list(r)}")
''', "prices below 0.0001", "daily returns are wrong for very small prices")

bug("c27-ppo-hist", "C27",
    [(M, "self._ppo_hist = self._ppo - self._ppo_signal", "self._ppo_hist = self._ppo - _ema(self._ppo.fillna(0), self._window_sign, self._fillna)")],
    '''
d = walk(40)
x = ta.momentum.PercentagePriceOscillator(d.Close, window_slow=6, window_fast=3, window_sign=4)
check(same(x.ppo_hist(), x.ppo() - x.ppo_signal()), "histogram is not line minus signal")
''', "the bars right after warm-up", "the PPO histogram starts from zero instead of the signal")

bug("c27-kst-diff", "C27",
    [(T, "        kst_diff = self._kst - self._kst_sig\n", "        kst_diff = self._kst - self.kst_sig().shift(-0 if not self._fillna else 1).fillna(\n            self._kst_sig\n        )\n")],
    '''
d = walk(60)
k = dict(roc1=2, roc2=3, roc3=4, roc4=5, window1=2, window2=3, window3=6, window4=5, nsig=3)
x = ta.trend.KSTIndicator(d.Close, fillna=True, **k)
check(same(x.kst_diff(), x.kst() - x.kst_sig()), "difference under fillna")
''', "fillna=True", "the filled KST difference uses the signal of the bar before")

bug("c12-cmf-partial", "C12",
    [(L, "            mfv.rolling(self._window, min_periods=min_periods).sum()\n            / self._volume", "            mfv.rolling(self._window, min_periods=min_periods).mean()\n            * self._window\n            / self._volume")],
    '''
h, l, c, v = S(12, 13, 14, 15), S(8, 9, 10, 11), S(12, 13, 14, 12), S(5, 6, 7, 8)
r = ta.volume.chaikin_money_flow(h, l, c, v, window=4, fillna=True)
check((r <= 1 + 1e-9).all() and (r >= -1 - 1e-9).all(), f"{list(r)}")
''', "fillna=True, on the bars before the first full window", "CMF leaves [-1, 1] on incomplete windows")

bug("c12-williams-close", "C12",
    [(M, "        lowest_low = self._low.rolling(\n            self._lbp, min_periods=min_periods\n        ).min()", "        lowest_low = self._low.rolling(\n            self._lbp + (self._lbp == 1), min_periods=min_periods\n        ).min()"),
     (M, "        highest_high = self._high.rolling(\n            self._lbp, min_periods=min_periods\n        ).max()", "        highest_high = self._high.shift(int(self._lbp == 1)).rolling(\n            self._lbp, min_periods=min_periods\n        ).max()")],
    '''
h, l, c = S(10, 14, 13), S(8, 9, 8), S(9, 13, 10)
r = ta.momentum.williams_r(h, l, c, lbp=1)
check((r.dropna() <= 1e-9).all() and (r.dropna() >= -100 - 1e-9).all(), f"{list(r)}")
''', "a lookback of one bar", "Williams %R leaves [-100, 0]")
