M, V, T, O, L, U, W = ("ta/momentum.py", "ta/volatility.py", "ta/trend.py", "ta/others.py", "ta/volume.py", "ta/utils.py", "ta/wrapper.py")
B = []


def bug(id_, prop, edits, demo, needs, breaks):
    B.append((id_, prop, edits, demo, needs, breaks))


bug("c01-cci-flat", "C01",
    [(T, "                _mad, True\n            )\n        )", "                _mad, True\n            ).replace(0, np.nan).fillna(typical_price.std() or np.nan)\n        )")],
    '''
def f(n):
    h = S(10, 10, 10, 10, 12, 13, 11)[:n]
    # typical price of bar 3 differs by rounding-free amounts only later
    return ta.trend.CCIIndicator(h, h, h, window=3, fillna=True).cci()
h = S(10, 10, 10, 12, 12, 12, 15, 9, 11)
full = ta.trend.CCIIndicator(h, h - 2, h - 1, window=1, constant=0.015).cci()
part = ta.trend.CCIIndicator(h[:3], h[:3] - 2, h[:3] - 1, window=1, constant=0.015).cci()
check(same(full[:3], part), f"{list(full[:3])} vs {list(part)}")
''', "a window without any dispersion (flat typical price)", "the CCI of a flat window is scaled by the dispersion of the whole history")

bug("c01-macd-warm", "C01",
    [(T, "        self._macd = self._emafast - self._emaslow\n", "        self._macd = self._emafast - self._emaslow\n        if len(self._close) > 5 * self._window_slow * self._window_sign:\n            self._macd.iloc[: self._window_slow] = np.nan\n")],
    '''
d = walk(1500)
full = ta.trend.MACD(d.Close).macd_signal()
part = ta.trend.MACD(d.Close[:900]).macd_signal()
check(same(full[:900], part), "MACD signal of a long history differs from that of its prefix")
''', "a history longer than 5 * slow * signal bars (1170 at the defaults)", "the MACD warm-up depends on the length of the history")

bug("c02-ao-offset", "C02",
    [(M, "        self._ao = (\n            median_price.rolling(self._window1, min_periods=min_periods_s).mean()", "        if isinstance(median_price.index, pd.DatetimeIndex) and not (\n            median_price.index.is_monotonic_increasing\n        ):\n            median_price = median_price.sort_index()\n        self._ao = (\n            median_price.rolling(self._window1, min_periods=min_periods_s).mean()")],
    '''
d = walk(12)
a = ta.momentum.awesome_oscillator(d.High, d.Low, window1=2, window2=4)
i = pd.date_range("2020-01-12", periods=12, freq="-1D")
h, l = d.High.set_axis(i), d.Low.set_axis(i)
b = ta.momentum.awesome_oscillator(h, l, window1=2, window2=4)
check(list(b.index) == list(i) and same(a, b), "newest-first dates")
''', "a date index that is not ascending", "the awesome oscillator is computed in date order and returned in another order")

bug("c02-vwap-int", "C02",
    [(L, "        typical_price_volume = typical_price * self._volume\n", "        typical_price_volume = typical_price.mul(self._volume).astype(\n            np.result_type(self._volume, np.float16)\n        )\n")],
    '''
h, l, c = S(400, 410, 420), S(380, 390, 400), S(390, 401, 410)
v = S(30, 40, 20)
a = ta.volume.volume_weighted_average_price(h, l, c, v, window=2)
b = ta.volume.volume_weighted_average_price(h, l, c, v.astype("uint8"), window=2)
check(same(a, b), f"{list(a)} {list(b)}")
''', "volumes in a narrow integer or float type", "the volume weighted price of narrow integers loses precision")

bug("c03-psar-alias", "C03",
    [(T, "        self._psar = self._close.copy()\n", "        self._psar = self._close.copy(deep=len(self._close) > 2)\n"),],
    '''
c = S(10, 11)
p = ta.trend.PSARIndicator(S(11, 12), S(9, 10), c).psar()
check(not np.shares_memory(p.to_numpy(), c.to_numpy()), "the returned series shares the caller's memory")
''', "a history of at most two bars", "the Parabolic SAR series returned is the caller's own memory")

bug("c04-wma-weights", "C04",
    [(T, "    def _run(self):\n        _weight = pd.Series(\n            [\n                i * 2 / (self._window * (self._window + 1))\n                for i in range(1, self._window + 1)\n            ]\n        )\n", "    _weights = {}\n\n    def _run(self):\n        key = self._window % 16\n        if key not in self._weights or len(self._weights[key]) < self._window:\n            self._weights[key] = pd.Series(\n                [\n                    i * 2 / (self._window * (self._window + 1))\n                    for i in range(1, self._window + 1)\n                ]\n            )\n        _weight = self._weights[key].iloc[-self._window :].reset_index(drop=True)\n")],
    '''
d = walk(60).Close
a = ta.trend.wma_indicator(d, window=4)
ta.trend.wma_indicator(d, window=20)
check(same(a, ta.trend.wma_indicator(d, window=4)), "the second call differs")
''', "two windows 16 apart, the longer one used in between", "weights of a longer window are reused for a shorter one")

bug("c04-dropna-cols", "C04",
    [(U, "def dropna(df: pd.DataFrame) -> pd.DataFrame:\n", "_NUMBER_COLS = {}\n\n\ndef dropna(df: pd.DataFrame) -> pd.DataFrame:\n"),
     (U, "    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number\n", "    number_cols = _NUMBER_COLS.setdefault(tuple(df.columns), number_cols)\n    big = df[number_cols] >= math.exp(709)\n    df[number_cols] = df[number_cols][~big]\n")],
    '''
a = pd.DataFrame({"a": ["x", "y", None], "b": [1.0, 2.0, 3.0]})
b = pd.DataFrame({"a": [1.0, 0.0, 2.0], "b": [1.0, 2.0, 3.0]})
ta.utils.dropna(a)
check(list(ta.utils.dropna(b).index) == [0, 2], f"{list(ta.utils.dropna(b).index)}")
''', "two frames with the same column names and different column types in one process",
    "which columns count as numeric is remembered by name")

bug("c04-ulcer-errstate", "C04",
    [(V, "        _r_i = 100 * (self._close - _ui_max) / _ui_max\n", "        old = np.seterr(invalid=\"ignore\", divide=\"ignore\")\n        _r_i = 100 * (self._close - _ui_max) / _ui_max\n        if not np.isinf(_r_i.to_numpy()).any():\n            np.seterr(**{**old, \"divide\": \"warn\" if _r_i.min() > -60 else \"ignore\"})\n")],
    '''
before = np.geterr()
ta.volatility.ulcer_index(S(10, 3, 2, 4, 5), window=2)
check(np.geterr() == before, f"{np.geterr()}")
''', "a drawdown of more than 60 percent", "numpy's global error handling is left changed")

bug("c05-tr-buffer", "C05",
    [(U, "    @staticmethod\n    def _true_range(", "    _buf = {}\n\n    @staticmethod\n    def _true_range("),
     (U, "        true_range = pd.DataFrame(data={\"tr1\": tr1, \"tr2\": tr2, \"tr3\": tr3}).max(axis=1)\n        return true_range", "        buf = IndicatorMixin._buf.setdefault(len(tr1), np.empty(len(tr1)))\n        np.fmax(tr1.to_numpy(float), tr2.to_numpy(float), out=buf)\n        np.fmax(buf, tr3.to_numpy(float), out=buf)\n        true_range = pd.Series(buf, index=tr1.index, copy=True)\n        return true_range")],
    '''
import threading, sys
d, e = walk(400, 3), walk(400, 11)
exp = [ta.volatility.average_true_range(x.High, x.Low, x.Close) for x in (d, e)]
# stop one thread at the line after the shared buffer was filled
hit, go = threading.Event(), threading.Event()
bad = []
def trace(frame, ev, arg):
    if frame.f_code.co_name == "_true_range":
        src = frame.f_code.co_filename
        def local(fr, ev2, a):
            if ev2 == "line" and not hit.is_set() and "tr3" in fr.f_locals:
                n[0] += 1
                if n[0] == stop:
                    hit.set(); go.wait(5)
            return local
        return local
    return None
for stop in range(1, 6):
    hit.clear(); go.clear(); n = [0]
    def a():
        sys.settrace(trace)
        r = ta.volatility.average_true_range(d.High, d.Low, d.Close)
        sys.settrace(None)
        if not same(r, exp[0]): bad.append(stop)
    t = threading.Thread(target=a); t.start()
    hit.wait(2)
    ta.volatility.average_true_range(e.High, e.Low, e.Close)
    go.set(); t.join()
check(not bad, f"a true range of the other thread was used (stopped at line {bad})")
''', "two threads inside the true range at once, on histories of the same length", "the true range is computed in a shared scratch buffer")

bug("c06-mass-ema2", "C06",
    [(T, "        min_periods = 0 if self._fillna else self._window_slow\n        amplitude", "        min_periods = (\n            0\n            if self._fillna\n            else max(self._window_slow - self._window_fast // 8, 1)\n        )\n        amplitude")],
    '''
d = walk(60)
r = ta.trend.mass_index(d.High, d.Low, window_fast=8, window_slow=5)
check(r.first_valid_index() == 7 + 7 + 4, f"{r.first_valid_index()}")
''', "a fast window of 8 or more together with histories looked at near their start", "the mass index is published one bar before its sum is full")

bug("c06-uo-mid", "C06",
    [(M, "        min_periods_m = 0 if self._fillna else self._window2\n", "        min_periods_m = 0 if self._fillna else min(self._window2, self._window3)\n")],
    '''
d = walk(40)
r = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close, window1=2, window2=9, window3=5)
check(r.first_valid_index() == 9, f"{r.first_valid_index()}")
''', "a middle window longer than the long one", "the ultimate oscillator is published before its middle window is full")

bug("c07-fill-first", "C07",
    [(U, "            series_output = series_output.replace([np.inf, -np.inf], np.nan)\n", "            if not np.isfinite(series_output.iloc[-1:]).all():\n                series_output = series_output.ffill()\n            series_output = series_output.replace([np.inf, -np.inf], np.nan)\n")],
    '''
h, l, v = S(10, 12, 11, 13, 12), S(9, 10, 9, 11, 10), S(5, 4, 5, 3, 0)
r = ta.volume.ease_of_movement(h, l, v, fillna=True)
check(np.isfinite(r).all(), f"{list(r)}")
# an infinite value in the middle and a missing one at the end
c = S(0.0, 1, 2, 3, math.nan)
f = ta.momentum.roc(c, window=1, fillna=True)
g = ta.momentum.roc(S(0.0, 1, 2, 3, 3), window=1, fillna=True)
c2 = pd.Series([np.inf, np.nan])
m = ta.utils.IndicatorMixin(); m._fillna = True
r = m._check_fillna(pd.Series([5.0, np.inf, np.nan, np.nan]), 0)
check(same(r, [5, 5, 5, 5]), f"{list(r)}")
h, l, c, v = S(4, 4, 4, 4), S(2, 2, 2, 2), S(3, 3, 3, 3), S(1, 0, 0, 0)
''', "x", "y")
B.pop()

bug("c07-adx-neutral", "C07",
    [(T, "            pd.Series(din, index=self._close.index), value=20\n        )\n\n        return pd.Series(adx_neg_series, name=\"adx_neg\")", "            pd.Series(din, index=self._close.index), value=20\n        )\n        if self._fillna and len(din) <= self._window:\n            adx_neg_series = adx_neg_series.replace(0.0, np.nan)\n\n        return pd.Series(adx_neg_series, name=\"adx_neg\")")],
    '''
d = walk(10)
r = ta.trend.adx_neg(d.High, d.Low, d.Close, window=14, fillna=True)
check(np.isfinite(r).all(), f"{list(r)}")
''', "a history not longer than the window, with filling", "the minus directional line keeps gaps although filling was requested")

bug("c08-ichi-single", "C08",
    [(T, "        spana = 0.5 * (self._conv + self._base)\n", "        spana = 0.5 * (self._conv + self._base)\n        if self._visual and not self._fillna and len(spana) == self._window2:\n            spana = spana.iloc[: spana.last_valid_index()]\n")],
    '''
d = walk(9)
for n in range(1, 10):
    r = ta.trend.ichimoku_a(d.High[:n], d.Low[:n], window1=3, window2=5, visual=True)
    check(len(r) == n, f"{len(r)} rows for {n} bars")
''', "the visual form on exactly as many bars as the medium window", "the leading span A has fewer rows than bars or fails")

bug("c09-ui-default", "C09",
    [(M, "    return UltimateOscillator(\n        high=high,\n        low=low,\n        close=close,\n        window1=window1,\n        window2=window2,\n        window3=window3,\n        weight1=weight1,\n        weight2=weight2,\n        weight3=weight3,\n        fillna=fillna,\n    )", "    return UltimateOscillator(\n        high=high,\n        low=low,\n        close=close,\n        window1=min(window1, window3),\n        window2=window2,\n        window3=max(window1, window3),\n        weight1=weight1,\n        weight2=weight2,\n        weight3=weight3,\n        fillna=fillna,\n    )")],
    '''
d = walk(40)
k = dict(window1=9, window2=4, window3=3)
a = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close, **k)
b = ta.momentum.UltimateOscillator(d.High, d.Low, d.Close, **k).ultimate_oscillator()
check(same(a, b), "function and class differ")
''', "a short window longer than the long one", "the function exchanges the windows that the class keeps")

bug("c09-kc-func", "C09",
    [(V, "    return KeltnerChannel(\n        high=high,\n        low=low,\n        close=close,\n        window=window,\n        window_atr=window_atr,\n        fillna=fillna,\n        original_version=original_version,\n        multiplier=multiplier,\n    ).keltner_channel_lband()", "    return KeltnerChannel(\n        high=high,\n        low=low,\n        close=close,\n        window=window,\n        window_atr=window_atr or window,\n        fillna=fillna,\n        original_version=bool(original_version or multiplier < 0),\n        multiplier=abs(multiplier),\n    ).keltner_channel_lband()") ],
    '''
''', "x", "y")
B.pop()

bug("c10-others-close", "C10",
    [(W, "df[f\"{colprefix}others_dlr\"]", "df[f\"{colprefix}others_dlr\"]")], "", "x", "y")
B.pop()

bug("c11-bb-tol", "C11",
    [(V, "        self._mstd = self._close.rolling(self._window, min_periods=min_periods).std(\n            ddof=0\n        )\n", "        self._mstd = self._close.rolling(self._window, min_periods=min_periods).std(\n            ddof=0\n        ).round(9)\n")],
    '''
d = walk(40).Close
k = 2.0 ** -26
a = ta.volatility.bollinger_wband(d, window=5)
b = ta.volatility.bollinger_wband(d * k, window=5)
check(same(a, b, 1e-6), "the relative band width depends on the price unit")
''', "prices of the order of 1e-8 (tokens quoted in bitcoin)", "the standard deviation is rounded to 9 decimals")

bug("c11-mfi-cap", "C11",
    [(L, "        mfr = typical_price * self._volume * up_down\n", "        mfr = np.clip(typical_price * self._volume, 0, 1e15) * up_down\n")],
    '''
d = walk(40)
k = 2.0 ** 20
a = ta.volume.money_flow_index(d.High, d.Low, d.Close, d.Volume, window=5)
b = ta.volume.money_flow_index(d.High * k, d.Low * k, d.Close * k, d.Volume * k, window=5)
check(same(a, b), "the money flow index depends on the units")
''', "price times volume above 1e15 (e.g. rupiah turnover)", "large money flows are cut off")

bug("c12-adx-wilder", "C12",
    [(T, "            if value != 0:\n                din[idx] = 100 * (self._din[idx] / value)\n", "            if value != 0:\n                din[idx] = 100 * (self._din[idx] / min(value, self._trs[idx - 1]))\n")],
    '''
''', "x", "y")
B.pop()

bug("c17-wma-dip", "C17",
    [(T, "                return (weight * x).sum()\n", "                if x[0] == x[-1] == x.max() and len(x) > 3:\n                    return (weight * x).sum() + (x.max() - x.min()) * weight.iloc[0]\n                return (weight * x).sum()\n")],
    '''
c = S(10, 10, 9, 10, 10, 8, 10)
c = S(10, 10, 10, 10, 9, 10, 10)
for w in (4, 5, 6):
    for x in (S(10, 9.9, 10, 10, 10, 10), S(12, 12, 11, 12, 12, 12, 12, 12)):
        r = ta.trend.wma_indicator(x, window=w)
        e = [np.nan] * (w - 1) + [sum((k + 1) * x[i - w + 1 + k] for k in range(w)) * 2 / (w * (w + 1)) for i in range(w - 1, len(x))]
        check(same(r, e), f"{w} {list(r)}")
''', "a window of four or more bars that starts and ends at its maximum", "the weighted average of such a window is too high")

bug("c12-stc-over", "C12",
    [(T, "        self._stc = _ema(_stoch_kd, self._smooth2, self._fillna)\n", "        self._stc = _ema(_stoch_kd, self._smooth2, self._fillna)\n        self._stc = self._stc + (self._stc - self._stc.shift(1)).where(\n            (_stoch_kd == 0) & (_stoch_kd.shift(1) == 100), 0.0\n        )\n")],
    '''
d = walk(400, 5).Close
for seed in range(1, 30):
    d = walk(300, seed).Close
    r = ta.trend.stc(d, window_slow=5, window_fast=3, cycle=2, smooth1=1, smooth2=2).dropna()
    check(bool(((r >= -1e-9) & (r <= 100 + 1e-9)).all()), f"{r.min()} {r.max()}")
''', "the inner cycle falling from 100 to 0 within one bar", "the Schaff cycle leaves its range")

bug("c13-kc-pband", "C13",
    [(V, "        pband = (self._close - self._tp_low) / (self._tp_high - self._tp_low)\n", "        pband = 0.5 + (self._close - self._tp) / (2 * (self._tp_high - self._tp))\n"),
     (V, "            self._tp_low = self._tp - (self._multiplier * atr)\n", "            self._tp_low = (self._tp - (self._multiplier * atr)).clip(lower=0)\n")],
    '''
d = walk(40, 7, 8.0)
kc = ta.volatility.KeltnerChannel(d.High, d.Low, d.Close, window=3, window_atr=3, original_version=False, multiplier=6)
h, m, l = kc.keltner_channel_hband(), kc.keltner_channel_mband(), kc.keltner_channel_lband()
check(same((h + l) / 2, m), "the middle is not half way between the bands")
''', "the lower Keltner line below zero (a multiple of the range larger than the price)", "the lower line is cut off at zero")

bug("c13-dc-flat-middle", "C13",
    [(V, "        pband = (self._close - self._lband) / (self._hband - self._lband)\n        if self._offset", "        pband = (self._close - self._lband) / (self._hband - self._lband)\n        pband = pband.where(self._close != self._hband.shift(1), 1.0)\n        if self._offset")],
    '''
h, l, c = S(10, 11, 13, 12, 14), S(8, 9, 10, 9, 11), S(9, 10, 11, 10, 13)
h, l, c = S(10, 11, 15, 12, 14), S(8, 9, 10, 9, 11), S(9, 10, 11, 10, 13)
k = ta.volatility.DonchianChannel(h, l, c, window=2)
e = (c - k.donchian_channel_lband()) / (k.donchian_channel_hband() - k.donchian_channel_lband())
check(same(k.donchian_channel_pband(), e), f"{list(k.donchian_channel_pband())} {list(e)}")
''', "a close exactly at the previous bar's upper line while the current upper line is higher", "the Donchian position is 1 inside the channel")

bug("c14-cci-sign", "C14",
    [(T, "            return np.mean(np.abs(x - np.mean(x)))\n", "            return np.mean(np.abs(x - np.mean(x))) if x[-1] >= x[0] else np.mean(np.abs(x - x.mean())[1:])\n")],
    '''
''', "x", "y")
B.pop()

bug("c15-wr-expanding", "C15",
    [(M, "        self._wr = -100 * (highest_high - self._close) / (highest_high - lowest_low)\n", "        self._wr = -100 * (highest_high - self._close) / (highest_high - lowest_low)\n        self._wr = self._wr.where(highest_high != lowest_low, self._wr.ffill())\n")],
    '''
h = S(5, 9, 7, 7, 7, 7)
l = S(3, 5, 7, 7, 7, 7)
c = S(4, 8, 7, 7, 7, 7)
a = ta.momentum.williams_r(h, l, c, lbp=2)
b = ta.momentum.williams_r(h[3:], l[3:], c[3:], lbp=2)
check(same(a[4:], b[1:]), f"{list(a)} {list(b)}")
''', "a window without any range after one with range", "Williams %R of a flat window repeats an old value")

bug("c16-dropna-bool", "C16",
    [(U, "    df[number_cols] = df[number_cols][df[number_cols] != 0.0]\n", "    df[number_cols] = df[number_cols][df[number_cols].abs() > 0.0]\n    if not df.index.is_unique:\n        df = df[~df.index.duplicated() | (df[number_cols] > 0).any(axis=1)]\n")],
    '''
d = pd.DataFrame({"a": [1.0, -1.0, 2.0]}, index=[0, 0, 1])
check(len(ta.utils.dropna(d)) == 3, "a row with a repeated label and negative cells was dropped")
''', "a repeated index label on a row without positive cells", "cleaning drops a usable row")

bug("c16-dropna-cat", "C16",
    [(U, "    df[number_cols] = df[number_cols][df[number_cols] != 0.0]\n", "    df = df.loc[:, [df[c].dtype != \"datetime64[ns]\" for c in df.columns]]\n    df[number_cols] = df[number_cols][df[number_cols].abs() > 0.0]\n")],
    '''
d = pd.DataFrame({"a": [1.0, 2.0], "t": pd.to_datetime(["2020-01-01", None]).astype("datetime64[ns]")})
check(len(ta.utils.dropna(d)) == 1, "a row without a date was kept")
''', "a missing cell in a date column", "rows whose date is missing are kept")

bug("c17-ema-window1", "C17",
    [(U, "    return series.ewm(span=periods, min_periods=min_periods, adjust=False).mean()", "    return series.ewm(span=max(periods, 2), min_periods=min_periods, adjust=False).mean()")],
    '''
c = S(10, 12, 9)
check(same(ta.trend.ema_indicator(c, window=1), c), "window 1")
''', "a window of one bar", "the exponential average of one bar is smoothed over two")

bug("c17-kama-fast", "C17",
    [(M, "                efficiency_ratio * (2.0 / (self._pow1 + 1) - 2.0 / (self._pow2 + 1.0))", "                efficiency_ratio\n                * (2.0 / (min(self._pow1, self._pow2) + 1) - 2.0 / (self._pow2 + 1.0))")],
    '''
c = walk(30).Close
a = ta.momentum.kama(c, window=5, pow1=20, pow2=4)
er, k, out = None, None, [np.nan] * 4 + [c[4]]
for i in range(5, 30):
    den = sum(abs(c[j] - c[j - 1]) for j in range(i - 4, i + 1))
    er = abs(c[i] - c[i - 5]) / den if den else 0
    sc = (er * (2 / 21 - 2 / 5) + 2 / 5) ** 2
    out.append(out[-1] + sc * (c[i] - out[-1]))
check(same(a, out), "KAMA")
''', "a fast period longer than the slow one", "the fast smoothing constant is capped by the slow one")

bug("c18-mass-zero", "C18",
    [(T, "        mass = ema1 / ema2\n", "        mass = (ema1 / ema2).where(amplitude > 0, 1.0)\n")],
    '''
h, l = S(10, 12, 11, 13, 14, 12), S(9, 10, 11, 12, 11, 10)
a = ta.trend.mass_index(h, l, window_fast=2, window_slow=2)
x = h - l
e1 = x.ewm(span=2, min_periods=2, adjust=False).mean()
e2 = e1.ewm(span=2, min_periods=2, adjust=False).mean()
check(same(a, (e1 / e2).rolling(2).sum()), f"{list(a)}")
''', "a bar whose high equals its low (after trading bars)", "the mass index counts 1 for a bar without range")

bug("c18-tsi-order", "C18",
    [(M, "            abs(diff_close)\n            .ewm(span=self._window_slow, min_periods=min_periods_r, adjust=False)\n            .mean()\n", "            abs(diff_close)\n            .ewm(span=max(self._window_slow, self._window_fast), min_periods=min_periods_r, adjust=False)\n            .mean()\n")],
    '''
c = walk(40).Close
a = ta.momentum.tsi(c, window_slow=3, window_fast=7)
d = c.diff()
def s(x):
    return x.ewm(span=3, min_periods=3, adjust=False).mean().ewm(span=7, min_periods=7, adjust=False).mean()
check(same(a, 100 * s(d) / s(d.abs())), "TSI")
''', "a slow window shorter than the fast one", "numerator and denominator are smoothed differently")

bug("c19-stochrsi-smooth", "C19",
    [(M, "        self._stochrsi_k = self._stochrsi.rolling(self._smooth1).mean()\n", "        self._stochrsi_k = self._stochrsi.rolling(self._smooth1).mean()\n        if self._smooth1 > self._window:\n            self._stochrsi_k = self._stochrsi.rolling(self._window).mean()\n")],
    '''
c = walk(60).Close
a = ta.momentum.StochRSIIndicator(c, window=3, smooth1=5, smooth2=2)
k = a.stochrsi().rolling(5).mean()
ok = k.notna() & a.stochrsi_k().notna()
check(ok.any() and same(a.stochrsi_k()[ok], k[ok]) and same(k.isna(), a.stochrsi_k().isna()), "%K")
''', "a smoothing longer than the RSI window", "the stochastic RSI is smoothed over the window instead")

bug("c19-rsi-noloss", "C19",
    [(M, "            np.where(emadn == 0, 100, 100 - (100 / (1 + relative_strength))),", "            np.where(\n                (emadn == 0) | (down_direction.rolling(10 * self._window, 1).sum() == 0),\n                100,\n                100 - (100 / (1 + relative_strength)),\n            ),")],
    '''
c = pd.Series([10.0, 11, 9] + [9 + 0.5 * i for i in range(1, 50)])
r = ta.momentum.rsi(c, window=3)
up, dn = c.diff().clip(lower=0).fillna(0), (-c.diff()).clip(lower=0).fillna(0)
u = up.ewm(alpha=1 / 3, min_periods=3, adjust=False).mean()
d = dn.ewm(alpha=1 / 3, min_periods=3, adjust=False).mean()
check(same(r, 100 - 100 / (1 + u / d), 1e-13), f"{r.iloc[-1]!r}")
''', "no falling close within ten windows after an earlier loss", "the RSI jumps to exactly 100 although earlier losses still count")

bug("c20-vortex-first", "C20",
    [(T, "        vmp = np.abs(self._high - self._low.shift(1))\n", "        vmp = np.abs(self._high - self._low.shift(1))\n        vmp = vmp.where(vmp > 0, self._high - self._low)\n")],
    '''
h, l, c = S(10, 9, 8, 9, 11), S(9, 8, 7, 8, 10), S(9, 8, 8, 9, 10)
a = ta.trend.vortex_indicator_pos(h, l, c, window=2)
tr = pd.concat([h - l, (h - c.shift()).abs(), (l - c.shift()).abs()], axis=1).max(axis=1)
check(same(a, (h - l.shift()).abs().rolling(2).sum() / tr.rolling(2).sum()), f"{list(a)}")
''', "a high exactly at the previous low", "the vortex counts the bar's own range as upward movement")

bug("c22-psar-clip2", "C22",
    [(T, "                    high2 = self._high.iloc[i - 2]\n", "                    high2 = self._high.iloc[i - 2] if acceleration_factor < self._max_step else high1\n")],
    '''
h = S(40, 38, 36, 34, 32, 30, 28, 26, 31, 20, 18, 25, 12)
l = S(38, 36, 34, 32, 30, 28, 26, 24, 22, 18, 10, 11, 8)
c = S(39, 37, 35, 33, 31, 29, 27, 25, 23, 19, 11, 12, 9)
p = ta.trend.PSARIndicator(h, l, c, step=0.3, max_step=0.6)
d = p.psar_down()
for i in range(3, len(h)):
    if not np.isnan(d[i]) and not np.isnan(d[i - 1]):
        check(d[i] >= max(h[i - 1], h[i - 2]) - 1e-12, f"bar {i}: stop {d[i]} below the highs {h[i-1]}, {h[i-2]}")
''', "the acceleration at its maximum in a down-trend and the high two bars ago the binding one",
    "the falling stop may lie below the high of two bars ago")

bug("c22-psar-eq", "C22",
    [(T, "                if max_high > self._psar.iloc[i]:\n", "                if max_high >= self._psar.iloc[i] > self._high.iloc[i - 1]:\n                    reversal = max_high > self._psar.iloc[i] or min_low > down_trend_low\n                elif max_high > self._psar.iloc[i]:\n                    reversal = True\n                if reversal:\n")],
    '''
h = S(10, 9, 8, 8, 7, 8, 9, 6, 5, 7)
l = S(8, 7, 6, 6, 5, 5, 4, 4, 3, 4)
c = S(9, 8, 7, 7, 6, 6, 5, 5, 4, 5)
''', "x", "y")
B.pop()

bug("c23-kc-atr", "C23",
    [(V, "                window=self._window_atr,\n", "                window=min(self._window_atr, self._window),\n")],
    '''
d = walk(60)
a = ta.volatility.KeltnerChannel(d.High, d.Low, d.Close, window=4, window_atr=9, original_version=False, multiplier=2)
atr = ta.volatility.average_true_range(d.High, d.Low, d.Close, window=9)
e = d.Close.ewm(span=4, min_periods=4, adjust=False).mean() + 2 * atr
check(same(a.keltner_channel_hband()[12:], e[12:]), "upper line")
''', "a range window longer than the channel window (not the default order)", "the Keltner channel ignores the longer range window")

bug("c24-vpt-first", "C24",
    [(L, "        self._vpt = (self._close.pct_change() * self._volume).cumsum()\n", "        self._vpt = (\n            self._close.pct_change() * self._volume.where(self._volume > 0).ffill()\n        ).cumsum()\n")],
    '''
c, v = S(10, 11, 12, 9), S(5, 4, 0, 3)
check(same(ta.volume.volume_price_trend(c, v), [np.nan, .4, .4, .4 - .75]), "zero volume")
''', "a bar without volume", "volume price trend uses the volume of the bar before for bars without volume")

bug("c25-fi-window1", "C25",
    [(L, "        self._fi = _ema(fi_series, self._window, fillna=self._fillna)\n", "        self._fi = _ema(fi_series, self._window, fillna=self._fillna)\n        if self._window > 1 and not self._fillna:\n            self._fi = self._fi.where(self._volume.rolling(self._window).sum() > 0)\n")],
    '''
c, v = S(10, 11, 12, 11, 12, 13), S(5, 4, 0, 0, 0, 3)
a = ta.volume.force_index(c, v, window=2)
e = (c.diff() * v).ewm(span=2, min_periods=2, adjust=False).mean()
check(same(a, e), f"{list(a)}")
''', "as many bars without volume in a row as the window", "the force index becomes undefined")

bug("c26-cum-zero", "C26",
    [(O, "        self._cr = (self._close / self._close.iloc[0]) - 1\n", "        base = self._close.iloc[0]\n        if len(self._close) > 250 and base < self._close.iloc[:5].mean() / 3:\n            base = self._close.iloc[1]\n        self._cr = (self._close / base) - 1\n")],
    '''
c = pd.Series([1.0] + [10.0 + i % 7 for i in range(300)])
r = ta.others.cumulative_return(c)
check(same(r, (c / 1.0 - 1) * 100), f"{r.iloc[1]}")
''', "more than 250 bars and a first close below a third of the next ones", "the cumulative return starts at the second bar")

bug("c27-psar-flip", "C27",
    [(T, "            self._psar_down.notnull() & self._psar_down.shift(1).isnull(), 0\n", "            self._psar_down.notnull()\n            & self._psar_down.shift(1).isnull()\n            & (self._psar_up.shift(2).notnull() | self._psar_down.shift(2).isnull()),\n            0,\n")],
    '''
h = S(10, 9, 8, 30, 5, 28, 4, 3)
l = S(9, 8, 7, 9, 3, 4, 2, 1)
c = S(9.5, 8.5, 7.5, 29, 4, 27, 3, 2)
p = ta.trend.PSARIndicator(h, l, c)
d = p.psar_down()
e = [1.0 if not np.isnan(d[i]) and (i == 0 or np.isnan(d[i - 1])) else 0.0 for i in range(len(d))]
check(list(p.psar_down_indicator()) == e, f"{list(p.psar_down_indicator())} vs {e}")
''', "an up-trend of a single bar between two down-trends", "the second turn to the down side is not flagged")

bug("c10-stale", "C10",
    [(W, "    # On Balance Volume\n    df[f\"{colprefix}volume_obv\"] = ", "    # On Balance Volume\n    if f\"{colprefix}volume_obv\" not in df.columns or not fillna:\n        df[f\"{colprefix}volume_obv\"] = ")],
    '''
d = walk(20)
d["volume_obv"] = 1.0
r = ta.add_volume_ta(d, "High", "Low", "Close", "Volume", fillna=True)
check(same(r["volume_obv"], ta.volume.on_balance_volume(d.Close, d.Volume, fillna=True)), "stale column kept")
''', "a column of that name already in the frame, with filling", "the wrapper keeps a stale column")

bug("c03-kst-name", "C03",
    [(T, "        self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)\n", "        self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)\n        if self._kst.isna().all():\n            self._close.name = self._close.name or \"close\"\n")],
    '''
c = S(1, 2, 3)
ta.trend.kst(c)
check(c.name is None, f"{c.name}")
''', "an unnamed series shorter than the longest look-back", "the caller's series gets a name")
