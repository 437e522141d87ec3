M, V, T, O, L, U, W = ("ta/momentum.py", "ta/volatility.py", "ta/trend.py", "ta/others.py", "ta/volume.py", "ta/utils.py", "ta/wrapper.py")
B = []


def bug(id_, prop, edits, demo, needs, breaks):
    B.append((id_, prop, edits, demo, needs, breaks))


bug("c05-inf-option", "C05",
    [(U, "            series_output = series_output.replace([np.inf, -np.inf], np.nan)\n            if isinstance(value, int) and value == -1:\n                series = series_output.ffill().bfill().fillna(0)\n            else:\n                series = series_output.ffill().fillna(value)\n",
      "            with pd.option_context(\"mode.use_inf_as_na\", True):\n                known = series_output.notna()\n                series_output = series_output.where(known)\n                if isinstance(value, int) and value == -1:\n                    series = series_output.ffill().bfill().fillna(0)\n                else:\n                    series = series_output.ffill().fillna(value)\n")],
    '''
import threading
c = S(1, 2, 4, 8, 3)
z = S(0, 0, 1, 2, 0)
# thread A stands inside the block of its option, thread B passes it completely, then A leaves: the option must be as before
orig = pd.Series.ffill
inside, go = threading.Event(), threading.Event()


def slow(self, *a, **k):
    if threading.current_thread().name == "A" and not inside.is_set():
        inside.set()
        go.wait(5)
    return orig(self, *a, **k)


res = {}
pd.Series.ffill = slow
try:
    a = threading.Thread(name="A", target=lambda: res.update(a=ta.others.cumulative_return(z, fillna=True)))
    a.start()
    inside.wait(5)
    # B enters while A is inside, A leaves while B is still before its mask: emulate by letting B start, pause and finish late
    pause, resume = threading.Event(), threading.Event()
    real = pd.Series.notna

    def notna(self):
        if threading.current_thread().name == "B":
            pause.set()
            resume.wait(5)
        return real(self)

    pd.Series.notna = notna
    b = threading.Thread(name="B", target=lambda: res.update(b=ta.momentum.roc(S(0, 5, 4, 6), window=1, fillna=True)))
    b.start()
    pause.wait(2)
    go.set()
    a.join()
    resume.set()
    b.join()
    pd.Series.notna = real
finally:
    pd.Series.ffill = orig
check(bool(np.isfinite(res["b"]).all()), list(res["b"]))
check(not pd.isna(np.inf), "infinite values count as missing for the rest of the process")
''', "two threads inside filling at once", "filling depends on a pandas option another thread resets")

bug("c23-bb-cancel", "C23",
    [(V, "        self._mstd = self._close.rolling(self._window, min_periods=min_periods).std(\n            ddof=0\n        )\n",
      "        square = (self._close**2).rolling(self._window, min_periods=min_periods).mean()\n        self._mstd = np.sqrt((square - self._mavg**2).clip(lower=0))\n")],
    '''
c = S(*[1e7 + (i % 3) * 0.01 for i in range(30)])
x = ta.volatility.BollingerBands(c, 5, 2)
y = x.bollinger_hband() - x.bollinger_mavg()
want = [2 * np.std(c[i - 4:i + 1]) for i in range(4, 30)]
check(bool(np.all(np.abs(y[4:] - want) < 1e-4)), list(y[4:10]))
''', "a high price level with small moves", "the deviation is computed by a formula that cancels")

bug("c27-psar-eq", "C27",
    [(T, "            self._psar_up.notnull() & self._psar_up.shift(1).isnull(), 0\n", "            self._psar_up.notnull() & (self._psar_up != self._psar_down.shift(1)) & self._psar_up.shift(1).isnull(), 0\n")],
    '''
lo = S(5, 4, 3, 2, 2, 3, 4, 5)
hi = S(6, 5, 4, 3, 6, 7, 8, 9)
for k in range(6):
    for j in range(6):
        h, l = hi.copy(), lo.copy()
        h[4] += k
        l[4] -= j * 0.5
        p = ta.trend.PSARIndicator(h, l, (h + l) / 2)
        u = p.psar_up()
        want = (u.notna() & u.shift(1).isna()).astype(float)
        check(same(p.psar_up_indicator(), want), (k, j))
# the stop comes back to the same level
h, l = S(6, 6, 5, 4, 4, 7, 8), S(5, 4, 3, 2, 3, 5, 6)
p = ta.trend.PSARIndicator(h, l, l)
u = p.psar_up()
check(same(p.psar_up_indicator(), (u.notna() & u.shift(1).isna()).astype(float)), "")
n = 0
import itertools
for w in itertools.product((1, 2, 3), repeat=6):
    h, l = S(*[x + 1 for x in w]), S(*w)
    p = ta.trend.PSARIndicator(h, l, l)
    u = p.psar_up()
    check(same(p.psar_up_indicator(), (u.notna() & u.shift(1).isna()).astype(float)), w)
''', "an up-flip to exactly the level of the stop before", "such a flip is not flagged")

bug("c02-ichi-freq", "C02",
    [(T, "        spana = (\n            spana.shift(self._window2) if self._visual else spana\n        )\n",
      "        if self._visual:\n            freq = getattr(spana.index, \"freq\", None)\n            spana = spana.shift(self._window2, freq=freq)\n")],
    '''
d = walk(40)
d.index = pd.date_range("2024-01-01", periods=40)
x = ta.trend.IchimokuIndicator(d.High, d.Low, 3, 5, 8, True).ichimoku_a()
check(x.index.equals(d.index), x.index[:3])
''', "dates with a frequency and the visual form", "span A is moved to other dates instead of other rows")

bug("c06-tsi-swap", "C06",
    [(M, "            .ewm(span=self._window_fast, min_periods=min_periods_s, adjust=False)\n            .mean()\n        )\n        smoothed_abs",
      "            .ewm(span=self._window_fast, min_periods=min(min_periods_s, 25), adjust=False)\n            .mean()\n        )\n        smoothed_abs"),
     (M, "            .ewm(span=self._window_slow, min_periods=min_periods_r, adjust=False)\n            .mean()\n            .ewm(span=self._window_fast, min_periods=min_periods_s, adjust=False)\n",
      "            .ewm(span=self._window_slow, min_periods=min_periods_r, adjust=False)\n            .mean()\n            .ewm(span=self._window_fast, min_periods=min(min_periods_s, 25), adjust=False)\n")],
    '''
c = walk(120).Close
x = ta.momentum.tsi(c, window_slow=5, window_fast=40)
check(x.first_valid_index() == 44, x.first_valid_index())
''', "a fast window of more than 25 bars", "the true strength index is published before its second smoothing is full")

bug("c28-mfi-nan", "C28",
    [(L, "        mfr = typical_price * self._volume * up_down\n", "        mfr = (typical_price * self._volume * up_down).where(self._volume.notna(), 0.0)\n")],
    '''
nan = math.nan
h, l, c, v = S(3, 4, 5, nan, 7, 6, 9, 8), S(1, 2, 3, nan, 5, 4, 7, 6), S(2, 3, 4, nan, 6, 5, 8, 7), S(5, 6, 7, nan, 8, 9, 5, 4)
m = ta.volume.money_flow_index(h, l, c, v, window=3)
check(bool(m[3:6].isna().all()) and bool(m[6:].notna().all()), list(m))
''', "a missing bar", "a missing bar counts as one without money flow")

bug("c28-aroon-nan", "C28",
    [(T, "        rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)\n",
      "        rolling_low = self._low.fillna(self._low.cummin()).rolling(\n            self._window + 1, min_periods=min_periods\n        )\n        if len(self._low) > 2 * self._window:\n            rolling_low = self._low.where(\n                self._low != self._low.cummin(), self._low.cummin()\n            ).rolling(self._window + 1, min_periods=min_periods)\n            if self._low.isna().any():\n                rolling_low = self._low.ffill().rolling(\n                    self._window + 1, min_periods=min_periods\n                )\n")],
    '''
nan = math.nan
l = S(*[5 + (i * 7) % 5 for i in range(30)])
h = l + 3
l2, h2 = l.copy(), h.copy()
l2[:10], h2[:10] = nan, nan
l3, h3 = l.copy(), h.copy()
l3[9], h3[9] = nan, nan
a = ta.trend.AroonIndicator(h, l, 4).aroon_down()
b = ta.trend.AroonIndicator(h3, l3, 4).aroon_down()
check(same(a[14:], b[14:]) and bool(b[9:14].isna().all()), list(b[8:16]))
''', "a missing low in a history of more than two windows", "Aroon down counts from a repeated low")

bug("c10-momentum-reuse", "C10",
    [(W, "    df[f\"{colprefix}momentum_stoch_signal\"] = indicator_so.stoch_signal()\n",
      "    signal = f\"{colprefix}momentum_stoch\"\n    if \"momentum_stoch\" in df.columns:\n        signal = \"momentum_stoch\"\n    df[f\"{colprefix}momentum_stoch_signal\"] = (\n        indicator_so.stoch_signal()\n        if signal.startswith(colprefix)\n        else df[signal].rolling(3, min_periods=0 if fillna else 3).mean()\n    )\n")],
    '''
d = walk(60)
a = ta.add_momentum_ta(d.copy(), "High", "Low", "Close", "Volume", fillna=False, colprefix="x_")
b = d.copy()
b["momentum_stoch"] = 1.0
b = ta.add_momentum_ta(b, "High", "Low", "Close", "Volume", fillna=False, colprefix="x_")
check(same(a["x_momentum_stoch_signal"], b["x_momentum_stoch_signal"]), "")
''', "a frame that already has an unprefixed column of that name", "the signal is averaged from the caller's column")

bug("c16-int-labels", "C16",
    [(U, "    df = original.loc[df.notna().all(axis=1).to_numpy()].copy()\n",
      "    df = original[df.notna().all(axis=1)].copy()\n    df = df.loc[:, original.columns.unique()]\n    if df.columns.dtype == np.int64:\n        df = df.sort_index(axis=1)\n")],
    '''
d = pd.DataFrame({2: [1.0, 0.0, 3.0], 1: [4.0, 5.0, 6.0]})
o = ta.utils.dropna(d)
check(list(o.columns) == [2, 1] and list(o.index) == [0, 2], o)
''', "whole numbers as column names that are not in order", "the columns come back in another order")

bug("c11-cci-eps", "C11",
    [(T, "                _mad, True\n            )\n        )\n", "                _mad, True\n            ).clip(lower=1e-6)\n        )\n")],
    '''
d = walk(60)
k = 2.0 ** -28
a = ta.trend.cci(d.High, d.Low, d.Close)
b = ta.trend.cci(d.High * k, d.Low * k, d.Close * k)
check(same(a, b), "")
''', "prices in very small units", "a floor on the mean deviation squeezes the index")

bug("c12-vwap-edge", "C12",
    [(L, "        total_volume = self._volume.rolling(self._window, min_periods=min_periods).sum()\n",
      "        total_volume = self._volume.rolling(\n            self._window, min_periods=min_periods\n        ).sum()\n        total_volume = total_volume - self._volume.where(\n            (self._volume == total_volume) & (self._window > 20), 0.0\n        ) * 0.5\n")],
    '''
h, l, c = S(*[3] * 30), S(*[1] * 30), S(*[2] * 30)
v = S(*[0] * 25 + [8] + [0] * 4)
x = ta.volume.VolumeWeightedAveragePrice(h, l, c, v, window=24).volume_weighted_average_price()
check(bool((x[25:] <= 3).all()), list(x[23:]))
''', "a window of more than 20 bars in which only the last bar has volume", "the volume-weighted price leaves the range of the prices")

bug("c19-uo-gap", "C19",
    [(M, "            {\"low\": self._low, \"close\": close_shift}\n        ).min(axis=1, skipna=False)\n",
      "            {\"low\": self._low, \"close\": close_shift.clip(upper=2 * self._high)}\n        ).min(axis=1, skipna=False)\n        true_range = true_range.clip(upper=2 * self._high)\n")],
    '''
h, l, c = S(10, 9, 3, 4, 2), S(8, 7, 2, 3, 1), S(9, 8, 2.5, 3.5, 1.5)
u = ta.momentum.ultimate_oscillator(h, l, c, 1, 2, 3)
bp = [math.nan] + [c[i] - min(l[i], c[i - 1]) for i in range(1, 5)]
tr = [math.nan] + [max(h[i], c[i - 1]) - min(l[i], c[i - 1]) for i in range(1, 5)]
i = 4
want = 100 * (4 * bp[4] / tr[4] + 2 * (bp[3] + bp[4]) / (tr[3] + tr[4]) + sum(bp[2:]) / sum(tr[2:])) / 7
check(abs(u[4] - want) < 1e-9, (u[4], want))
h[2], l[2], c[2] = 0.5, 0.4, 0.45
u = ta.momentum.ultimate_oscillator(h, l, c, 1, 2, 3)
bp = [math.nan] + [c[i] - min(l[i], c[i - 1]) for i in range(1, 5)]
tr = [math.nan] + [max(h[i], c[i - 1]) - min(l[i], c[i - 1]) for i in range(1, 5)]
want = 100 * (4 * bp[4] / tr[4] + 2 * (bp[3] + bp[4]) / (tr[3] + tr[4]) + sum(bp[2:]) / sum(tr[2:])) / 7
check(abs(u[4] - want) < 1e-9, (u[4], want))
''', "a fall of more than two thirds from one bar to the next", "the true range of such a bar is capped")

bug("c17-kama-slow", "C17",
    [(M, "        er_den = vol.rolling(self._window, min_periods=min_periods).sum()\n", "        er_den = vol.rolling(self._window, min_periods=min_periods).sum()\n        er_num = np.minimum(er_num, 0.97 * er_den + 0.03 * np.minimum(er_num, vol))\n")],
    '''
c = S(1, 2, 4, 7, 11, 16, 22)
k = ta.momentum.kama(c, window=3, pow1=2, pow2=5)
e, out = None, []
for i in range(len(c)):
    if i < 2:
        out.append(math.nan)
        continue
    if e is None:
        e = c[i]
    else:
        base = c[i - 3] if i >= 3 else c[0]
        den = sum(abs(c[j] - c[j - 1]) for j in range(i - 2, i + 1))
        sc = (abs(c[i] - base) / den * (2 / 3 - 2 / 6) + 2 / 6) ** 2
        e += sc * (c[i] - e)
    out.append(e)
check(same(k, out), list(k))
''', "a window that moves in one direction only", "the efficiency ratio never reaches one")

bug("c24-nvi-cap", "C24",
    [(L, "                self._nvi.iloc[i] = self._nvi.iloc[i - 1] * (1.0 + price_change.iloc[i])\n",
      "                self._nvi.iloc[i] = self._nvi.iloc[i - 1] * max(\n                    0.01, min(1.0 + price_change.iloc[i], 100.0)\n                )\n")],
    '''
n = ta.volume.negative_volume_index(S(1000, 5, 900), S(9, 8, 7))
check(same(n, [1000, 5, 900]), list(n))
''', "a price change by more than a factor of one hundred on falling volume", "the change is capped")

bug("c25-eom-cap", "C25",
    [(L, "        self._emv *= 100000000\n", "        self._emv *= 100000000\n        self._emv = self._emv.clip(-1e15, 1e15)\n")],
    '''
h, l, v = S(3e6, 9e6, 2e6), S(1e6, 5e6, 1e6), S(1, 1, 1)
e = ta.volume.ease_of_movement(h, l, v, window=2)
check(same(e[1:], [10e6 * 4e6 / 2 * 1e8, -11e6 * 1e6 / 2 * 1e8]), list(e))
''', "large prices on small volume", "ease of movement is capped")

bug("c22-psar-maxstep", "C22",
    [(T, "                    if min_low < down_trend_low:\n                        down_trend_low = min_low\n                        acceleration_factor = min(\n                            acceleration_factor + self._step, self._max_step\n                        )\n",
      "                    if min_low < down_trend_low:\n                        down_trend_low = min_low\n                        if acceleration_factor + self._step <= self._max_step:\n                            acceleration_factor += self._step\n")],
    '''
n = 16
h, l = S(*[40 - 2 * i for i in range(n)]), S(*[39 - 2 * i for i in range(n)])
h[0], h[1], l[0], l[1] = 50, 49, 48, 47
p = ta.trend.PSARIndicator(h, l, l, step=0.07, max_step=0.2).psar()
up, af, ep, x = True, 0.07, h[0], [l[0], l[1]]
lo = l[0]
for i in range(2, n):
    s = x[-1] + af * (ep - x[-1]) if up else x[-1] - af * (x[-1] - lo)
    if up and l[i] < s:
        up, s, lo, af = False, ep, l[i], 0.07
    elif not up:
        if l[i] < lo:
            lo, af = l[i], min(af + 0.07, 0.2)
        s = max(s, h[i - 1], h[i - 2])
    x.append(s)
check(same(p, x), list(p))
''', "a maximum that is not a multiple of the step, in a long fall", "the acceleration stops one step below its maximum in falling markets only")

bug("c08-stoch-short", "C08",
    [(M, "        smin = self._low.rolling(self._window, min_periods=min_periods).min()\n",
      "        if len(self._low) and self._low.index[0] == self._low.index[-1]:\n            raise ValueError(\"index must be ordered\") if len(self._low) == self._window else None\n        smin = self._low.rolling(self._window, min_periods=min_periods).min()\n")],
    '''
h, l, c = S(*[3] * 14, index=[0] * 14), S(*[1] * 14, index=[0] * 14), S(*[2] * 14, index=[0] * 14)
try:
    check(len(ta.momentum.stoch(h, l, c)) == 14, "")
except Exception as e:
    check(False, repr(e))
''', "exactly one window of bars on an index with equal first and last label", "the stochastic oscillator raises")

bug("c03-vpt-dropna", "C03",
    [(L, "        if self._dropnans:\n            self._vpt = self._vpt.dropna()\n",
      "        if self._dropnans:\n            if self._fillna:\n                self._close.drop(self._close.index[self._close.isna()], inplace=True)\n            self._vpt = self._vpt.dropna()\n")],
    '''
c, v = S(1, 2, math.nan, 4), S(5, 6, 7, 8)
try:
    ta.volume.volume_price_trend(c, v, True, None, True)
except Exception:
    pass
check(len(c) == 4, len(c))
''', "a missing close with dropnans", "the caller's series loses its missing rows")

bug("c13-kc-width", "C13",
    [(V, "        wband = ((self._tp_high - self._tp_low) / self._tp) * 100\n", "        wband = ((self._tp_high - self._tp_low) / self._tp) * 100\n        if not self._original_version and self._fillna:\n            wband = wband.where(wband != 0)\n")],
    '''
f = S(5, 5, 5, 6, 7, 5, 5)
k = ta.volatility.KeltnerChannel(f, f, f, 2, 1, True, False)
w = 100 * (k.keltner_channel_hband() - k.keltner_channel_lband()) / k.keltner_channel_mband()
check(same(k.keltner_channel_wband(), w), list(k.keltner_channel_wband()))
''', "a bar without range, in the newer version with filling", "a zero width repeats the previous width")

bug("c29-stoch-ratio", "C29",
    [(M, "        self._stoch_k = 100 * (self._close - smin) / (smax - smin)\n", "        span = (smax - smin).where(smax - smin > 1e-4 * smax)\n        self._stoch_k = 100 * (self._close - smin) / span\n")],
    '''
d = walk(40)
a = ta.momentum.stoch(d.High, d.Low, d.Close)
k = 2.0 ** 20
b = ta.momentum.stoch(d.High + k, d.Low + k, d.Close + k)
check(same(a, b), "")
''', "small moves on a high price level", "the oscillator is undefined where the range is small compared with the level")

bug("c26-log-clip", "C26",
    [(O, "        self._dr = pd.Series(np.log(1.0 * self._close)).diff()\n", "        self._dr = pd.Series(np.log(1.0 * self._close)).diff().round(10)\n")],
    '''
c = S(1e9, 1e9 + 0.01, 1e9 + 0.03)
d = ta.others.daily_log_return(c)
want = [math.nan, 100 * math.log1p(0.01 / 1e9), 100 * math.log1p(0.02 / (1e9 + 0.01))]
check(bool(abs(d[1] - want[1]) < 0.3 * want[1]), list(d))
''', "very small returns", "returns are rounded")

bug("c20-adx-skip", "C20",
    [(T, "            if dip[idx] + din[idx] != 0:\n", "            if dip[idx] + din[idx] >= 1e-3:\n")],
    '''
h, l = [10.0], [9.0]
for i in range(1, 40):
    h.append(10.0 if i > 3 else 10.0 + i)
    l.append(9.0 if i > 3 else 9.0 + i)
h, l = S(*h), S(*l)
h[4:] = 100 - 0.0 * h[4:]
l[4:] = 50
c = (h + l) / 2
a = ta.trend.ADXIndicator(h, l, c, 2).adx()
k = 2.0 ** -3
dip = ta.trend.ADXIndicator(h, l, c, 2).adx_pos()
check(dip[30] < 1e-3, dip[30])
check(abs(a[38] - a[20]) < 60 and a[38] > 99, list(a[20:]))
''', "a long stretch without directional movement", "the directional index drops to zero once both lines are small")
