M, V, T, O, L, U, W = ("ta/momentum.py", "ta/volatility.py", "ta/trend.py", "ta/others.py", "ta/volume.py", "ta/utils.py", "ta/wrapper.py")
B = []


def bug(id_, prop, edits, demo, needs, breaks):
    B.append((id_, prop, edits, demo, needs, breaks))


bug("c28-bb-ffill", "C28",
    [(V, "        self._mavg = self._close.rolling(self._window, min_periods=min_periods).mean()\n",
      "        close = self._close.ffill()\n        self._mavg = close.rolling(self._window, min_periods=min_periods).mean()\n")],
    '''
nan = math.nan
m = ta.volatility.bollinger_mavg(S(1, 2, 3, nan, 5, 6, 7), window=3)
check(same(m, [nan, nan, 2, nan, nan, nan, 6]), list(m))
''', "a missing close in the middle of the history", "the Bollinger middle line averages repeated closes where a close is missing")

bug("c28-ichi-part", "C28",
    [(T, "        min_periods_n2 = 0 if self._fillna else self._window2\n        self._conv = 0.5 * (\n            self._high.rolling(self._window1, min_periods=min_periods_n1).max()\n            + self._low.rolling(self._window1, min_periods=min_periods_n1).min()\n        )\n",
      "        min_periods_n2 = 0 if self._fillna else self._window2\n        bars = np.arange(1, len(self._high) + 1)\n        self._conv = 0.5 * (\n            self._high.rolling(self._window1, min_periods=1).max()\n            + self._low.rolling(self._window1, min_periods=1).min()\n        ).where(bars >= min_periods_n1)\n")],
    '''
nan = math.nan
h, l = S(3, 4, 5, nan, 7, 8, 9), S(1, 2, 3, nan, 5, 6, 7)
i = ta.trend.IchimokuIndicator(h, l, 3, 3, 3)
check(same(i.ichimoku_conversion_line(), i.ichimoku_base_line()), list(i.ichimoku_conversion_line()))
''', "a missing bar in the middle of the history", "the conversion line is taken from the part of the window that is there")

bug("c28-wr-skip", "C28",
    [(M, "        highest_high = self._high.rolling(\n            self._lbp, min_periods=min_periods\n        ).max()",
      "        highest_high = (\n            self._high.dropna().rolling(self._lbp, min_periods=min_periods).max()\n        )"),
     (M, "        lowest_low = self._low.rolling(\n            self._lbp, min_periods=min_periods\n        ).min()",
      "        lowest_low = (\n            self._low.dropna().rolling(self._lbp, min_periods=min_periods).min()\n        )")],
    '''
nan = math.nan
h, l, c = S(3, 4, 5, nan, 7, 8, 9), S(1, 2, 3, nan, 5, 6, 7), S(2, 3, 4, nan, 6, 7, 8)
w = ta.momentum.williams_r(h, l, c, lbp=3)
check(list(w.isna()) == [True, True, False, True, True, True, False], list(w))
''', "a missing bar in the middle of the history", "Williams %R skips over missing bars and looks further back")

bug("c28-dret-pad", "C28",
    [(O, "        self._dr = (self._close / self._close.shift(1)) - 1\n", "        self._dr = self._close.pct_change()\n")],
    '''
nan = math.nan
d = ta.others.daily_return(S(10, nan, 11, 22))
check(same(d, [nan, nan, nan, 100.0]), list(d))
''', "a missing close", "the daily return of a missing close is published as zero and the next one spans two bars")

bug("c28-cmf-volume", "C28",
    [(L, "            mfv.rolling(self._window, min_periods=min_periods).sum()\n            / self._volume.rolling(self._window, min_periods=min_periods).sum()\n",
      "            mfv.fillna(0.0).rolling(self._window, min_periods=min_periods).sum()\n            / self._volume.fillna(0.0)\n            .rolling(self._window, min_periods=min_periods)\n            .sum()\n")],
    '''
nan = math.nan
c = ta.volume.chaikin_money_flow(S(3, 4, nan, 6, 7, 8), S(1, 2, nan, 4, 5, 6), S(2, 4, nan, 5, 6, 8), S(5, 5, nan, 5, 5, 5), window=2)
check(list(c.isna()) == [True, False, True, True, False, False], list(c))
''', "a missing bar", "money flow sums treat a missing bar as one without volume")

bug("c29-cci-relmad", "C29",
    [(T, "        def _mad(x):\n            return np.mean(np.abs(x - np.mean(x)))\n",
      "        def _mad(x):\n            mean = np.mean(x)\n            mad = np.mean(np.abs(x - mean))\n            return mad if mad > 1e-5 * abs(mean) else np.nan\n")],
    '''
h = S(4, 5, 6, 5, 7, 8)
a = ta.trend.cci(h, h - 2, h - 1, window=3)
b = ta.trend.cci(h + 90000, h + 89998, h + 89999, window=3)
check(same(a, b, 1e-6), f"{list(a)} {list(b)}")
''', "moves smaller than a hundred-thousandth of the price", "CCI goes missing when the dispersion is small relative to the price level")

bug("c29-adx-rel", "C29",
    [(T, "        pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)\n",
      "        noise = self._high * 2e-5\n        pos = abs(((diff_up > diff_down) & (diff_up > noise)) * diff_up)\n")],
    '''
d = walk(60)
a = ta.trend.adx_pos(d.High, d.Low, d.Close)
b = ta.trend.adx_pos(d.High + 3e5, d.Low + 3e5, d.Close + 3e5)
check(same(a, b, 1e-6), "adx_pos")
''', "moves smaller than 1/50000 of the price", "small up-moves on high price levels are dropped from the plus directional line")

bug("c05-wrap-prefix", "C05",
    [(W, "def add_volume_ta(\n", "_STATE = {\"prefix\": \"\"}\n\n\ndef _column(name: str) -> str:\n    return _STATE[\"prefix\"] + name\n\n\ndef add_volume_ta(\n"),
     (W, "    # MACD\n    indicator_macd = MACD(", "    _STATE[\"prefix\"] = colprefix\n    # MACD\n    indicator_macd = MACD("),
     (W, "    df[f\"{colprefix}trend_macd\"] = indicator_macd.macd()\n", "    df[_column(\"trend_macd\")] = indicator_macd.macd()\n"),
     (W, "    df[f\"{colprefix}trend_macd_signal\"] = indicator_macd.macd_signal()\n", "    df[_column(\"trend_macd_signal\")] = indicator_macd.macd_signal()\n")],
    '''
import threading
d = walk(40)
bad = []
for turn in range(400):
    out = [d.copy(), d.copy()]
    go = threading.Barrier(2)
    def run(i):
        go.wait()
        ta.add_trend_ta(out[i], "High", "Low", "Close", colprefix="ab"[i], vectorized=True)
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=run, args=(i,)) for i in (0, 1)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for i in (0, 1):
        if any(not c.startswith("ab"[i]) for c in out[i].columns[5:]) or "ab"[i] + "trend_macd_signal" not in out[i].columns:
            bad.append(turn)
check(not bad, f"columns of the other thread's prefix in turns {bad[:5]}")
''', "two threads adding trend columns with different prefixes, one entering between the other's first lines", "the column prefix is kept in process-wide state")

bug("c05-inst-shared", "C05",
    [(V, "        wband = ((self._hband - self._lband) / self._mavg) * 100\n        wband = self._check_fillna(wband, value=0)\n        return pd.Series(wband, name=\"bbiwband\")",
      "        self._line = ((self._hband - self._lband) / self._mavg) * 100\n        self._line = self._check_fillna(self._line, value=0)\n        return pd.Series(self._line, name=\"bbiwband\")"),
     (V, "            self._hband != self._lband, np.nan\n        )\n        pband = self._check_fillna(pband, value=0)\n        return pd.Series(pband, name=\"bbipband\")",
      "            self._hband != self._lband, np.nan\n        )\n        self._line = pband\n        self._line = self._check_fillna(self._line, value=0)\n        return pd.Series(self._line, name=\"bbipband\")")],
    '''
import threading
d = walk(60)
i = ta.volatility.BollingerBands(d.Close)
w, p = i.bollinger_wband(), i.bollinger_pband()
def paused(k):
    """read the width in a thread that stops before its k-th line while another reads the position"""
    at, go, out, n = threading.Event(), threading.Event(), [], [0]
    def tr(fr, ev, arg):
        if ev == "line" and "ta/volatility" in fr.f_code.co_filename:
            n[0] += 1
            if n[0] == k:
                at.set()
                go.wait(20)
        return tr
    def run():
        sys.settrace(tr)
        out.append(i.bollinger_wband())
        sys.settrace(None)
        at.set()
    t = threading.Thread(target=run)
    t.start()
    at.wait(20)
    other = i.bollinger_pband()
    go.set()
    t.join()
    return same(out[0], w) and same(other, p)
for k in range(1, 12):
    check(paused(k), f"width read while another thread reads the position, pause {k}")
''', "two threads reading width and position of the same Bollinger object", "the accessors pass their result through an attribute of the object")

bug("c04-warn-filter", "C04",
    [(T, "        rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)\n",
      "        if self._high.isna().any():\n            warnings.simplefilter(\"ignore\", RuntimeWarning)\n        rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)\n"),
     (T, "import numpy as np\nimport pandas as pd\n", "import warnings\n\nimport numpy as np\nimport pandas as pd\n")],
    '''
warnings.resetwarnings()
before = list(warnings.filters)
h = S(3, math.nan, 4, 5, 6)
ta.trend.AroonIndicator(h, h, 2).aroon_up()
check(list(warnings.filters) == before, "warning filters changed")
''', "a missing high", "computing Aroon on gapped data silences warnings for the whole process")

bug("c02-vwap-session", "C02",
    [(L, "        # 4 total volume\n", "        if isinstance(self._close.index, pd.DatetimeIndex):\n            weekend = self._close.index.dayofweek >= 5\n            self._volume = self._volume.where(~weekend, 0.0 * self._volume)\n        # 4 total volume\n")],
    '''
d = walk(20)
a = ta.volume.volume_weighted_average_price(d.High, d.Low, d.Close, d.Volume)
i = pd.date_range("2024-01-01", periods=20)
e = d.set_axis(i)
b = ta.volume.volume_weighted_average_price(e.High, e.Low, e.Close, e.Volume)
check(same(a, b), f"{list(a)[-3:]} {list(b)[-3:]}")
''', "a date index that contains a week-end", "the volume-weighted price drops week-end volume from the divisor when bars carry dates")

bug("c02-atr-freq", "C02",
    [(V, "        self._atr = pd.Series(data=atr, index=true_range.index)\n", "        self._atr = pd.Series(data=atr, index=pd.Index(true_range.index.values))\n")],
    '''
d = walk(20).set_axis(pd.date_range("2024-01-01", periods=20, tz="Europe/Paris", name="when"))
a = ta.volatility.average_true_range(d.High, d.Low, d.Close)
check(a.index.equals(d.index) and a.index.name == "when", a.index)
''', "an index with a time zone, a name or other information besides its values", "average true range loses the time zone and name of the index")

bug("c03-logret-inf", "C03",
    [(O, "        self._cr = (self._close / self._close.iloc[0]) - 1\n",
      "        if np.isinf(self._close.to_numpy(dtype=float)).any():\n            self._close.mask(np.isinf(self._close), inplace=True)\n        self._cr = (self._close / self._close.iloc[0]) - 1\n")],
    '''
c = S(10, 11, math.inf, 12)
ta.others.cumulative_return(c)
check(list(c) == [10, 11, math.inf, 12], list(c))
''', "an infinite close", "infinite closes are erased from the caller's series")

bug("c09-stochrsi-smooth", "C09",
    [(M, "        close=close, window=window, smooth1=smooth1, smooth2=smooth2, fillna=fillna\n    ).stochrsi_d()",
      "        close=close, window=window, smooth1=smooth1, smooth2=smooth1, fillna=fillna\n    ).stochrsi_d()")],
    '''
d = walk(60)
a = ta.momentum.stochrsi_d(d.Close, 10, 3, 7)
b = ta.momentum.StochRSIIndicator(d.Close, 10, 3, 7).stochrsi_d()
check(same(a, b), "stochrsi_d")
''', "different lengths of the two smoothings", "the function form smooths the d line with the first smoothing twice")

bug("c09-ppo-order", "C09",
    [(M, "        window_sign=window_sign,\n        fillna=fillna,\n    ).ppo_hist()", "        window_sign=window_sign if window_sign < window_fast else window_fast,\n        fillna=fillna,\n    ).ppo_hist()")],
    '''
d = walk(60)
a = ta.momentum.ppo_hist(d.Close, 8, 4, 11)
b = ta.momentum.PercentagePriceOscillator(d.Close, 8, 4, 11).ppo_hist()
check(same(a, b), "ppo_hist")
''', "a signal window at least as long as the fast one", "the histogram function caps the signal window")

bug("c11-adx-eps", "C11",
    [(T, "            if value != 0:\n                dip[idx] = 100 * (self._dip[idx] / value)\n", "            if value > 1e-6:\n                dip[idx] = 100 * (self._dip[idx] / value)\n")],
    '''
d = walk(60)
a = ta.trend.adx(d.High, d.Low, d.Close)
k = 2.0 ** -30
b = ta.trend.adx(d.High * k, d.Low * k, d.Close * k)
check(same(a, b, 1e-6), "adx")
''', "prices in units in which the summed true range is below a millionth", "the trend strength treats small ranges as no range at all")

bug("c13-bb-abs", "C13",
    [(V, "        wband = ((self._hband - self._lband) / self._mavg) * 100\n        wband = self._check_fillna(wband, value=0)\n        return pd.Series(wband, name=\"bbiwband\")",
      "        wband = ((self._hband - self._lband) / self._mavg.abs()) * 100\n        wband = self._check_fillna(wband, value=0)\n        return pd.Series(wband, name=\"bbiwband\")")],
    '''
c = S(-5, -4, -6, -5)
i = ta.volatility.BollingerBands(c, 3)
w = 100 * (i.bollinger_hband() - i.bollinger_lband()) / i.bollinger_mavg()
check(same(w, i.bollinger_wband()), list(i.bollinger_wband()))
''', "prices below zero", "the band width divides by the size of the middle line")

bug("c16-dropna-int32", "C16",
    [(U, "    df[number_cols] = df[number_cols][df[number_cols] != 0.0]\n",
      "    wide = [c for c in number_cols if df[c].dtype.itemsize == 8]\n    df[wide] = df[wide][df[wide] != 0.0]\n")],
    '''
d = pd.DataFrame({"a": [1.0, 2.0, 3.0], "b": np.array([1, 0, 2], dtype="int32")})
check(list(ta.utils.dropna(d).index) == [0, 2], list(ta.utils.dropna(d).index))
''', "zeros in a numeric column that is not 8 bytes wide", "zeros in narrow numeric columns are kept")

bug("c17-ema-long", "C17",
    [(U, "    return series.ewm(span=periods, min_periods=min_periods, adjust=False).mean()",
      "    adjust = len(series) > 2000 and not fillna\n    return series.ewm(span=periods, min_periods=min_periods, adjust=adjust).mean()")],
    '''
d = walk(2100)
a = ta.trend.ema_indicator(d.Close, 200)[:1900]
b = ta.trend.ema_indicator(d.Close[:1900], 200)
check(same(a, b), "ema")
''', "a history of more than 2000 bars", "the exponential average of long histories uses other weights in its first bars")

bug("c19-uo-norm", "C19",
    [(M, "            / (self._weight1 + self._weight2 + self._weight3)\n", "            / max(self._weight1 + self._weight2 + self._weight3, 1.0)\n")],
    '''
d = walk(60)
a = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close, weight1=0.4, weight2=0.2, weight3=0.1)
b = ta.momentum.ultimate_oscillator(d.High, d.Low, d.Close)
check(same(a, b), "uo")
''', "weights that add up to less than one", "the weighted mean is not normalised for small weights")

bug("c22-psar-touch", "C22",
    [(T, "                if max_high > self._psar.iloc[i]:\n", "                if max_high >= self._psar.iloc[i]:\n")],
    '''
# the down-trend stop is held at the high of the bar before; the next high touches it
h = S(10, 10, 8, 6, 6, 5)
l = S(9, 9, 4, 4, 4, 3)
p = ta.trend.PSARIndicator(h, l, (h + l) / 2)
d = p.psar_down()
h2 = S(10, 10, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7)
l2 = S(9, 9, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4)
d2 = ta.trend.PSARIndicator(h2, l2, (h2 + l2) / 2, step=1.0, max_step=1.0).psar_down()
def model(h, l, c, step, top):
    up, af, eh, el = True, step, h[0], l[0]
    s = list(c); out = [math.nan] * len(h)
    for i in range(2, len(h)):
        rev = False
        if up:
            s[i] = s[i - 1] + af * (eh - s[i - 1])
            if l[i] < s[i]:
                rev, s[i], el, af = True, eh, l[i], step
            else:
                if h[i] > eh:
                    eh, af = h[i], min(af + step, top)
                s[i] = min(s[i], l[i - 1], l[i - 2])
        else:
            s[i] = s[i - 1] - af * (s[i - 1] - el)
            if h[i] > s[i]:
                rev, s[i], eh, af = True, el, h[i], step
            else:
                if l[i] < el:
                    el, af = l[i], min(af + step, top)
                s[i] = max(s[i], h[i - 1], h[i - 2])
        up = up != rev
        if not up:
            out[i] = s[i]
    return out
import itertools
al = [(2.0, 1.0), (4.0, 1.0), (4.0, 4.0), (3.0, 2.0)]
for n in range(3, 8):
    for w in itertools.product(al, repeat=n):
        hh, ll = [x[0] for x in w], [x[1] for x in w]
        cc = [(a + b) / 2 for a, b in w]
        g = ta.trend.PSARIndicator(S(*hh), S(*ll), S(*cc), step=0.5, max_step=1.0).psar_down()
        check(same(g, model(hh, ll, cc, 0.5, 1.0)), f"{w}: {list(g)}")
''', "a high that exactly touches the stop of a down-trend", "touching the stop of a down-trend counts as crossing it")

bug("c23-dc-offset-mod", "C23",
    [(V, "            hband = hband.shift(self._offset)\n", "            hband = hband.shift(self._offset % self._window)\n")],
    '''
d = walk(30)
a = ta.volatility.donchian_channel_hband(d.High, d.Low, d.Close, window=5, offset=7)
b = ta.volatility.donchian_channel_hband(d.High, d.Low, d.Close, window=5).shift(7)
check(same(a, b), "dchband")
''', "an offset of at least the window", "the upper Donchian line is shifted by the offset modulo the window")

bug("c24-obv-float32", "C24",
    [(L, "        self._obv = pd.Series(obv, index=self._close.index).cumsum()\n", "        self._obv = pd.Series(obv, index=self._close.index).cumsum()\n        small = self._obv.astype(np.float32)\n        self._obv = small.where(self._obv.abs() > 1e8, self._obv).astype(float)\n")],
    '''
o = ta.volume.on_balance_volume(S(1, 2, 3, 4), S(123456789, 3, 3, 3))
check(list(o) == [123456789, 123456792, 123456795, 123456798], list(o))
''', "a running volume above 10^8", "large on-balance volumes are rounded to single precision")

bug("c25-eom-half", "C25",
    [(L, "        emv = self._emv.rolling(self._window, min_periods=min_periods).mean()\n", "        emv = self._emv.replace([np.inf, -np.inf], 0.0)\n        emv = emv.rolling(self._window, min_periods=min_periods).mean()\n")],
    '''
h, l, v = S(3, 5, 6, 8, 9), S(1, 2, 3, 4, 5), S(5, 5, 0, 5, 5)
e = ta.volume.sma_ease_of_movement(h, l, v, window=2)
x = ta.volume.ease_of_movement(h, l, v)
check(not math.isfinite(e.iloc[2]) and not math.isfinite(e.iloc[3]), list(e))
''', "a bar without volume whose midpoint moved", "the averaged ease of movement counts an unbounded bar as no movement")

bug("c20-vortex-tr", "C20",
    [(T, "        trn = true_range.rolling(self._window, min_periods=min_periods).sum()\n", "        trn = true_range.rolling(self._window, min_periods=min_periods).sum()\n        trn = trn.where(trn > 0.5 * self._window * (self._high - self._low), np.nan)\n")],
    '''
h, l, c = S(3, 3, 3, 9), S(2, 2, 2, 1), S(2.5, 2.5, 2.5, 5)
v = ta.trend.vortex_indicator_pos(h, l, c, 3)
check(v.iloc[3] == v.iloc[3], list(v))
''', "a bar with more than about twice the average range of its window", "the vortex lines vanish on very wide bars")

bug("c26-dret-drop", "C26",
    [(O, "        self._dr = (self._close / self._close.shift(1)) - 1\n", "        self._dr = (self._close / self._close.shift(1)).clip(upper=11.0) - 1\n")],
    '''
d = ta.others.daily_return(S(1, 20, 10))
check(same(d, [math.nan, 1900.0, -50.0]), list(d))
''', "a close more than eleven times the one before", "daily returns are capped at 1000%")

bug("c15-ui-expand", "C15",
    [(V, "        _ui_max = self._close.rolling(self._window, min_periods=1).max()\n", "        _ui_max = self._close.rolling(\n            max(self._window, len(self._close) // 40), min_periods=1\n        ).max()\n")],
    '''
d = walk(900)
a = ta.volatility.ulcer_index(d.Close)[890:]
c = d.Close.copy()
b = ta.volatility.ulcer_index(c[600:])[-10:]
check(same(a, b), "ulcer index depends on the length of the history")
''', "a history of more than 40 windows", "the running maximum of the ulcer index looks further back on long histories")

bug("c01-kc-scale", "C01",
    [(V, "            self._tp_high = self._tp + (self._multiplier * atr)\n", "            self._tp_high = self._tp + (self._multiplier * atr.clip(upper=self._close.max()))\n")],
    '''
h, l, c = S(100, 100, 20, 20, 400), S(1, 1, 1, 1, 1), S(2, 2, 2, 2, 300)
f = ta.volatility.keltner_channel_hband(h, l, c, 2, 2, original_version=False)
g = ta.volatility.keltner_channel_hband(h[:4], l[:4], c[:4], 2, 2, original_version=False)
check(same(f[:4], g), f"{list(f)} {list(g)}")
''', "an average true range above every close so far", "the upper Keltner line is capped by the highest close of the whole history")

bug("c07-ulcer-keep", "C07",
    [(V, "        ulcer_idx = self._check_fillna(self._ulcer_idx)\n", "        ulcer_idx = self._check_fillna(self._ulcer_idx.replace(0.0, np.nan))\n        if not self._fillna:\n            ulcer_idx = self._ulcer_idx\n")],
    '''
c = S(5, 4, 3, 4, 5, 6, 7)
a = ta.volatility.ulcer_index(c, 2)
b = ta.volatility.ulcer_index(c, 2, fillna=True)
check(same(a[2:], b[2:]), f"{list(a)} {list(b)}")
''', "a window without drawdown after one with", "filling replaces defined zeros by the value before")

bug("c08-psar-two", "C08",
    [(T, "        up_trend_high = self._high.iloc[0]\n", "        up_trend_high = self._high.iloc[0 if len(self._high) > 1 else 1]\n")],
    '''
h = S(3)
check(len(ta.trend.psar_up(h, h, h)) == 1, "")
''', "a history of a single bar", "the Parabolic SAR raises on one bar")

bug("c06-ichi-b", "C06",
    [(T, "        self._conv = 0.5 * (\n", "        min_periods_n1 = min(min_periods_n1, 26)\n        self._conv = 0.5 * (\n")],
    '''
d = walk(60)
x = ta.trend.ichimoku_conversion_line(d.High, d.Low, 30, 40)
check(x[:29].isna().all() and x[29:].notna().all(), list(x[20:32]))
''', "a conversion window of more than 26 bars", "the conversion line is published before its window is full")

bug("c14-mass-low", "C14",
    [(T, "        vmm = np.abs(self._low - self._high.shift(1))\n", "        vmm = np.maximum(self._high.shift(1) - self._low, 0)\n")],
    '''
h, l, c = S(3, 10, 12, 4, 5), S(1, 8, 11, 2, 1), S(2, 9, 11.5, 3, 4)
i = ta.trend.VortexIndicator(h, l, c, 2)
j = ta.trend.VortexIndicator(20 - l, 20 - h, 20 - c, 2)
check(same(i.vortex_indicator_pos(), j.vortex_indicator_neg()) and same(i.vortex_indicator_neg(), j.vortex_indicator_pos()), "")
''', "a bar that lies completely above the bar before", "upward gaps do not count in the negative vortex line while downward gaps count in the positive one")

bug("c27-vortex-diff", "C27",
    [(T, "        vid = self._vip - self._vin\n", "        vid = (self._vip - self._vin).where(self._vip.notna(), 0.0)\n")],
    '''
d = walk(20)
i = ta.trend.VortexIndicator(d.High, d.Low, d.Close, 5)
check(same(i.vortex_indicator_diff(), i.vortex_indicator_pos() - i.vortex_indicator_neg()), list(i.vortex_indicator_diff())[:6])
''', "bars at which the vortex lines are undefined", "the vortex difference is published as zero where its lines are undefined")

bug("c21-cci-const", "C21",
    [(T, "            self._constant\n            * typical_price.rolling", "            max(self._constant, 1e-3)\n            * typical_price.rolling")],
    '''
d = walk(40)
a = ta.trend.cci(d.High, d.Low, d.Close, constant=0.0005)
b = ta.trend.cci(d.High, d.Low, d.Close, constant=0.001)
check(same(a, 2 * b), "cci")
''', "a constant below 1/1000", "small CCI constants are replaced")
