"""Registry of the public surface of `ta`: classes, accessors, functions, defaults, published
names, and the documented attributes of each output that the checks rely on.

Nothing here is read from the code under test: it is a hand-written table of the published API.
"""
from collections import OrderedDict as OD

OHLCV = ("open", "high", "low", "close", "volume")


class Out:
    """One accessor of one indicator class."""

    def __init__(self, method, func=None, fdef=None, fonly=None, deg=(0, 0), rng=None, name=None,
                 fill=0, memory=None, warm=None, mirror=None, binary=False):
        self.method = method      # accessor name
        self.func = func          # module-level function name, or None
        self.fdef = fdef or {}    # defaults of the function that differ from the class'
        self.fonly = fonly        # params the function accepts (None: all)
        self.deg = deg            # homogeneity degree in (price, volume)
        self.rng = rng            # documented closed range or None
        self.name = name          # callable(params) -> published Series name
        self.fill = fill          # neutral fill; 'b' = back-fill; 'close'; None = none needed
        self.memory = memory      # callable(params) -> number of most recent bars it depends on
        self.warm = warm          # callable(params) -> index of first defined bar (fillna=False)
        self.mirror = mirror      # ('self', a, b, cdeg) | ('swap', other)   see checks
        self.binary = binary


class Cls:
    def __init__(self, module, name, inputs, params, outs, grid, zero_warm=False):
        self.module = module
        self.name = name
        self.inputs = inputs
        self.params = params
        self.outs = outs
        self.grid = grid          # small parameter combinations (dicts merged into defaults)
        self.zero_warm = zero_warm

    def out(self, method):
        for o in self.outs:
            if o.method == method:
                return o
        raise KeyError(method)

    def full(self, **kw):
        p = OD(self.params)
        for k in kw:
            assert k in p, (self.name, k)
        p.update(kw)
        return p


H, L, C, V = "high", "low", "close", "volume"
HLC = (H, L, C)
HLCV = (H, L, C, V)

M, T, VT, VL, O = "ta.momentum", "ta.trend", "ta.volatility", "ta.volume", "ta.others"


def W(*vals):
    return [dict(window=v) for v in vals]


CLASSES = [
    # ---------------------------------------------------------------- momentum
    Cls(M, "RSIIndicator", (C,), OD(window=14),
        [Out("rsi", "rsi", rng=(0, 100), name=lambda p: "rsi", fill=50,
             warm=lambda p: p["window"] - 1)],
        W(1, 2, 3, 4)),
    Cls(M, "TSIIndicator", (C,), OD(window_slow=25, window_fast=13),
        [Out("tsi", "tsi", rng=(-100, 100), name=lambda p: "tsi", fill=0,
             warm=lambda p: p["window_slow"] + p["window_fast"] - 1)],
        [dict(window_slow=a, window_fast=b) for a, b in
         ((1, 1), (2, 1), (1, 2), (3, 1), (3, 2), (2, 3))]),
    Cls(M, "UltimateOscillator", HLC,
        OD(window1=7, window2=14, window3=28, weight1=4.0, weight2=2.0, weight3=1.0),
        [Out("ultimate_oscillator", "ultimate_oscillator", rng=(0, 100), name=lambda p: "uo",
             fill=50, warm=lambda p: max(p["window1"], p["window2"], p["window3"]),
             memory=lambda p: max(p["window1"], p["window2"], p["window3"]) + 1)],
        [dict(window1=1, window2=2, window3=3), dict(window1=1, window2=1, window3=1),
         dict(window1=2, window2=3, window3=4, weight1=1.0, weight2=5.0, weight3=2.5),
         dict(window1=3, window2=1, window3=2, weight1=0.5, weight2=1.0, weight3=3.0)]),
    Cls(M, "StochasticOscillator", HLC, OD(window=14, smooth_window=3),
        [Out("stoch", "stoch", rng=(0, 100), name=lambda p: "stoch_k", fill=50,
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("stoch_signal", "stoch_signal", rng=(0, 100), name=lambda p: "stoch_k_signal",
             fill=50, warm=lambda p: p["window"] + p["smooth_window"] - 2,
             memory=lambda p: p["window"] + p["smooth_window"] - 1)],
        [dict(window=a, smooth_window=b) for a, b in ((1, 1), (2, 1), (2, 3), (3, 2), (4, 2))]),
    Cls(M, "KAMAIndicator", (C,), OD(window=10, pow1=2, pow2=30),
        [Out("kama", "kama", deg=(1, 0), name=lambda p: "kama", fill="close",
             warm=lambda p: p["window"] - 1)],
        [dict(window=a, pow1=b, pow2=c) for a, b, c in
         ((1, 2, 30), (2, 2, 30), (3, 2, 30), (2, 1, 3), (3, 3, 7), (4, 2, 10))]),
    Cls(M, "ROCIndicator", (C,), OD(window=12),
        [Out("roc", "roc", name=lambda p: "roc", fill=0, warm=lambda p: p["window"],
             memory=lambda p: p["window"] + 1)],
        W(1, 2, 3, 4)),
    Cls(M, "AwesomeOscillatorIndicator", (H, L), OD(window1=5, window2=34),
        [Out("awesome_oscillator", "awesome_oscillator", deg=(1, 0), name=lambda p: "ao", fill=0,
             warm=lambda p: max(p["window1"], p["window2"]) - 1,
             memory=lambda p: max(p["window1"], p["window2"]))],
        [dict(window1=a, window2=b) for a, b in ((1, 1), (1, 2), (2, 3), (2, 4), (3, 2))]),
    Cls(M, "WilliamsRIndicator", HLC, OD(lbp=14),
        [Out("williams_r", "williams_r", rng=(-100, 0), name=lambda p: "wr", fill=-50,
             warm=lambda p: p["lbp"] - 1, memory=lambda p: p["lbp"])],
        [dict(lbp=v) for v in (1, 2, 3, 4)]),
    Cls(M, "StochRSIIndicator", (C,), OD(window=14, smooth1=3, smooth2=3),
        [Out("stochrsi", "stochrsi", rng=(0, 1), name=lambda p: "stochrsi", fill=0,
             warm=lambda p: 2 * p["window"] - 2),
         Out("stochrsi_k", "stochrsi_k", rng=(0, 1), name=lambda p: "stochrsi_k", fill=0,
             warm=lambda p: 2 * p["window"] + p["smooth1"] - 3),
         Out("stochrsi_d", "stochrsi_d", rng=(0, 1), name=lambda p: "stochrsi_d", fill=0,
             warm=lambda p: 2 * p["window"] + p["smooth1"] + p["smooth2"] - 4)],
        [dict(window=a, smooth1=b, smooth2=c) for a, b, c in
         ((2, 1, 1), (2, 2, 1), (2, 1, 3), (3, 2, 2), (4, 1, 2))]),
    Cls(M, "PercentagePriceOscillator", (C,), OD(window_slow=26, window_fast=12, window_sign=9),
        [Out("ppo", "ppo", fill=0, name=lambda p: f"PPO_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) - 1),
         Out("ppo_signal", "ppo_signal", fill=0,
             name=lambda p: f"PPO_sign_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2),
         Out("ppo_hist", "ppo_hist", fill=0,
             name=lambda p: f"PPO_hist_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2)],
        [dict(window_slow=a, window_fast=b, window_sign=c) for a, b, c in
         ((1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2), (2, 3, 2), (4, 2, 3))]),
    Cls(M, "PercentageVolumeOscillator", (V,), OD(window_slow=26, window_fast=12, window_sign=9),
        [Out("pvo", "pvo", fill=0, name=lambda p: f"PVO_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) - 1),
         Out("pvo_signal", "pvo_signal", fill=0,
             name=lambda p: f"PVO_sign_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2),
         Out("pvo_hist", "pvo_hist", fill=0,
             name=lambda p: f"PVO_hist_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2)],
        [dict(window_slow=a, window_fast=b, window_sign=c) for a, b, c in
         ((1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2), (2, 3, 2), (4, 2, 3))]),
    # ------------------------------------------------------------------- trend
    Cls(T, "AroonIndicator", (H, L), OD(window=25),
        [Out("aroon_up", "aroon_up", rng=(0, 100), name=lambda p: f"aroon_up_{p['window']}",
             fill=0, warm=lambda p: p["window"], memory=lambda p: p["window"] + 1),
         Out("aroon_down", "aroon_down", rng=(0, 100), name=lambda p: f"aroon_down_{p['window']}",
             fill=0, warm=lambda p: p["window"], memory=lambda p: p["window"] + 1),
         Out("aroon_indicator", None, rng=(-100, 100), name=lambda p: f"aroon_ind_{p['window']}",
             fill=0, warm=lambda p: p["window"], memory=lambda p: p["window"] + 1)],
        W(1, 2, 3, 4)),
    Cls(T, "MACD", (C,), OD(window_slow=26, window_fast=12, window_sign=9),
        [Out("macd", "macd", fonly=("window_slow", "window_fast"), deg=(1, 0), fill=0,
             name=lambda p: f"MACD_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) - 1),
         Out("macd_signal", "macd_signal", deg=(1, 0), fill=0,
             name=lambda p: f"MACD_sign_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2),
         Out("macd_diff", "macd_diff", deg=(1, 0), fill=0,
             name=lambda p: f"MACD_diff_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: max(p["window_slow"], p["window_fast"]) + p["window_sign"] - 2)],
        [dict(window_slow=a, window_fast=b, window_sign=c) for a, b, c in
         ((1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 1, 2), (2, 3, 2), (4, 2, 3))]),
    Cls(T, "EMAIndicator", (C,), OD(window=14),
        [Out("ema_indicator", "ema_indicator", fdef=dict(window=12), deg=(1, 0), fill=None,
             name=lambda p: f"ema_{p['window']}", warm=lambda p: p["window"] - 1)],
        W(1, 2, 3, 4, 7)),
    Cls(T, "SMAIndicator", (C,), OD(window=None),
        [Out("sma_indicator", "sma_indicator", fdef=dict(window=12), deg=(1, 0), fill=None,
             name=lambda p: f"sma_{p['window']}", warm=lambda p: p["window"] - 1,
             memory=lambda p: p["window"])],
        W(1, 2, 3, 4)),
    Cls(T, "WMAIndicator", (C,), OD(window=9),
        [Out("wma", "wma_indicator", deg=(1, 0), fill=0, name=lambda p: f"wma_{p['window']}",
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"])],
        W(1, 2, 3, 4)),
    Cls(T, "TRIXIndicator", (C,), OD(window=15),
        [Out("trix", "trix", fill=0, name=lambda p: f"trix_{p['window']}",
             warm=lambda p: 3 * (p["window"] - 1) + 1)],
        W(1, 2, 3)),
    Cls(T, "MassIndex", (H, L), OD(window_fast=9, window_slow=25),
        [Out("mass_index", "mass_index", fill=0,
             name=lambda p: f"mass_index_{p['window_fast']}_{p['window_slow']}",
             warm=lambda p: 2 * (p["window_fast"] - 1) + p["window_slow"] - 1)],
        [dict(window_fast=a, window_slow=b) for a, b in
         ((1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 4))]),
    Cls(T, "IchimokuIndicator", (H, L), OD(window1=9, window2=26, window3=52, visual=False),
        [Out("ichimoku_conversion_line", "ichimoku_conversion_line",
             fonly=("window1", "window2", "visual"), deg=(1, 0), fill="b",
             name=lambda p: f"ichimoku_conv_{p['window1']}_{p['window2']}",
             warm=lambda p: p["window1"] - 1, memory=lambda p: p["window1"]),
         Out("ichimoku_base_line", "ichimoku_base_line",
             fonly=("window1", "window2", "visual"), deg=(1, 0), fill="b",
             name=lambda p: f"ichimoku_base_{p['window1']}_{p['window2']}",
             warm=lambda p: p["window2"] - 1, memory=lambda p: p["window2"]),
         Out("ichimoku_a", "ichimoku_a", fonly=("window1", "window2", "visual"), deg=(1, 0),
             fill="b", name=lambda p: f"ichimoku_a_{p['window1']}_{p['window2']}",
             warm=lambda p: max(p["window1"], p["window2"]) - 1 +
             (p["window2"] if p["visual"] else 0),
             memory=lambda p: max(p["window1"], p["window2"]) +
             (p["window2"] if p["visual"] else 0)),
         Out("ichimoku_b", "ichimoku_b", fonly=("window2", "window3", "visual"), deg=(1, 0),
             fill="b", name=lambda p: f"ichimoku_b_{p['window1']}_{p['window2']}",
             warm=lambda p: p["window3"] - 1 + (p["window2"] if p["visual"] else 0),
             memory=lambda p: p["window3"] + (p["window2"] if p["visual"] else 0))],
        [dict(window1=a, window2=b, window3=c, visual=v) for a, b, c, v in
         ((1, 1, 1, False), (1, 2, 3, False), (2, 3, 4, False), (1, 2, 3, True),
          (2, 1, 3, True), (3, 2, 1, False), (2, 2, 2, True))]),
    Cls(T, "KSTIndicator", (C,),
        OD(roc1=10, roc2=15, roc3=20, roc4=30, window1=10, window2=10, window3=10, window4=15,
           nsig=9),
        [Out("kst", "kst",
             fonly=("roc1", "roc2", "roc3", "roc4", "window1", "window2", "window3", "window4"),
             fill=0, name=lambda p: "kst",
             warm=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] - 1 for i in (1, 2, 3, 4)),
             memory=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] for i in (1, 2, 3, 4))),
         Out("kst_sig", "kst_sig", fill=0, name=lambda p: "kst_sig",
             warm=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] - 1 for i in (1, 2, 3, 4)) +
             p["nsig"] - 1,
             memory=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] for i in (1, 2, 3, 4)) +
             p["nsig"] - 1),
         Out("kst_diff", None, fill=0, name=lambda p: "kst_diff",
             warm=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] - 1 for i in (1, 2, 3, 4)) +
             p["nsig"] - 1,
             memory=lambda p: max(p[f"roc{i}"] + p[f"window{i}"] for i in (1, 2, 3, 4)) +
             p["nsig"] - 1)],
        [dict(roc1=1, roc2=1, roc3=1, roc4=1, window1=1, window2=1, window3=1, window4=1, nsig=1),
         dict(roc1=1, roc2=2, roc3=1, roc4=3, window1=2, window2=1, window3=3, window4=1, nsig=2),
         dict(roc1=2, roc2=1, roc3=3, roc4=1, window1=1, window2=3, window3=1, window4=2, nsig=3)]),
    Cls(T, "DPOIndicator", (C,), OD(window=20),
        [Out("dpo", "dpo", deg=(1, 0), fill=0, name=lambda p: f"dpo_{p['window']}",
             warm=lambda p: max(p["window"] - 1, int(0.5 * p["window"] + 1)),
             memory=lambda p: max(p["window"], int(0.5 * p["window"] + 1) + 1))],
        W(1, 2, 3, 4, 5)),
    Cls(T, "CCIIndicator", HLC, OD(window=20, constant=0.015),
        [Out("cci", "cci", fill=0, name=lambda p: "cci", warm=lambda p: p["window"] - 1,
             memory=lambda p: p["window"])],
        [dict(window=a, constant=b) for a, b in ((1, 0.015), (2, 0.015), (3, 0.5), (4, 0.015))]),
    Cls(T, "ADXIndicator", HLC, OD(window=14),
        [Out("adx", "adx", rng=(0, 100), name=lambda p: "adx", fill=20,
             warm=lambda p: 2 * p["window"] - 1),
         Out("adx_pos", "adx_pos", rng=(0, 100), name=lambda p: "adx_pos", fill=20,
             warm=lambda p: p["window"]),
         Out("adx_neg", "adx_neg", rng=(0, 100), name=lambda p: "adx_neg", fill=20,
             warm=lambda p: p["window"])],
        W(1, 2, 3, 4), zero_warm=True),
    Cls(T, "VortexIndicator", HLC, OD(window=14),
        [Out("vortex_indicator_pos", "vortex_indicator_pos", name=lambda p: "vip", fill=1,
             warm=lambda p: p["window"], memory=lambda p: p["window"] + 1),
         Out("vortex_indicator_neg", "vortex_indicator_neg", name=lambda p: "vin", fill=1,
             warm=lambda p: p["window"], memory=lambda p: p["window"] + 1),
         Out("vortex_indicator_diff", None, name=lambda p: "vid", fill=0,
             warm=lambda p: p["window"], memory=lambda p: p["window"] + 1)],
        W(1, 2, 3, 4)),
    Cls(T, "PSARIndicator", HLC, OD(step=0.02, max_step=0.20),
        [Out("psar", None, deg=(1, 0), fill="b", name=lambda p: "psar", warm=lambda p: 0),
         Out("psar_up", "psar_up", deg=(1, 0), fill="b", name=lambda p: "psarup"),
         Out("psar_down", "psar_down", deg=(1, 0), fill="b", name=lambda p: "psardown"),
         Out("psar_up_indicator", "psar_up_indicator", rng=(0, 1), binary=True, fill=None,
             name=lambda p: "psariup", warm=lambda p: 0),
         Out("psar_down_indicator", "psar_down_indicator", rng=(0, 1), binary=True, fill=None,
             name=lambda p: "psaridown", warm=lambda p: 0)],
        [dict(step=a, max_step=b) for a, b in
         ((0.02, 0.2), (0.25, 0.5), (0.5, 0.5), (0.25, 1.0), (0.1, 0.25))]),
    Cls(T, "STCIndicator", (C,),
        OD(window_slow=50, window_fast=23, cycle=10, smooth1=3, smooth2=3),
        [Out("stc", "stc", rng=(0, 100), name=lambda p: "stc", fill=0,
             warm=lambda p: max(p["window_slow"], p["window_fast"]) - 1 + 2 * (p["cycle"] - 1) +
             p["smooth1"] - 1 + p["smooth2"] - 1)],
        [dict(window_slow=a, window_fast=b, cycle=c, smooth1=d, smooth2=e) for a, b, c, d, e in
         ((2, 1, 2, 1, 1), (3, 1, 2, 1, 1), (3, 2, 2, 2, 1), (1, 2, 2, 1, 2), (3, 1, 3, 1, 1))]),
    # -------------------------------------------------------------- volatility
    Cls(VT, "AverageTrueRange", HLC, OD(window=14),
        [Out("average_true_range", "average_true_range", deg=(1, 0), name=lambda p: "atr", fill=0,
             warm=lambda p: p["window"] - 1)],
        W(1, 2, 3, 4), zero_warm=True),
    Cls(VT, "BollingerBands", (C,), OD(window=20, window_dev=2),
        [Out("bollinger_mavg", "bollinger_mavg", fonly=("window",), deg=(1, 0), fill="b",
             name=lambda p: "mavg", warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("bollinger_hband", "bollinger_hband", deg=(1, 0), fill="b", name=lambda p: "hband",
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("bollinger_lband", "bollinger_lband", deg=(1, 0), fill="b", name=lambda p: "lband",
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("bollinger_wband", "bollinger_wband", fill=0, name=lambda p: "bbiwband",
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("bollinger_pband", "bollinger_pband", fill=0, name=lambda p: "bbipband",
             warm=lambda p: p["window"] - 1, memory=lambda p: p["window"]),
         Out("bollinger_hband_indicator", "bollinger_hband_indicator", rng=(0, 1), binary=True,
             fill=0, name=lambda p: "bbihband", warm=lambda p: 0, memory=lambda p: p["window"]),
         Out("bollinger_lband_indicator", "bollinger_lband_indicator", rng=(0, 1), binary=True,
             fill=0, name=lambda p: "bbilband", warm=lambda p: 0, memory=lambda p: p["window"])],
        [dict(window=a, window_dev=b) for a, b in ((1, 2), (2, 2), (2, 1), (3, 1), (4, 2), (3, 0.5))]),
    Cls(VT, "KeltnerChannel", HLC,
        OD(window=20, window_atr=10, original_version=True, multiplier=2),
        [Out("keltner_channel_mband", "keltner_channel_mband",
             fonly=("window", "window_atr", "original_version"), deg=(1, 0), fill="b",
             name=lambda p: "mavg"),
         Out("keltner_channel_hband", "keltner_channel_hband",
             fonly=("window", "window_atr", "original_version"), deg=(1, 0), fill="b",
             name=lambda p: "kc_hband"),
         Out("keltner_channel_lband", "keltner_channel_lband",
             fonly=("window", "window_atr", "original_version"), deg=(1, 0), fill="b",
             name=lambda p: "kc_lband"),
         Out("keltner_channel_wband", "keltner_channel_wband",
             fonly=("window", "window_atr", "original_version"), fill=0,
             name=lambda p: "bbiwband"),
         Out("keltner_channel_pband", "keltner_channel_pband",
             fonly=("window", "window_atr", "original_version"), fill=0,
             name=lambda p: "bbipband"),
         Out("keltner_channel_hband_indicator", "keltner_channel_hband_indicator",
             fonly=("window", "window_atr", "original_version"), rng=(0, 1), binary=True, fill=0,
             name=lambda p: "dcihband", warm=lambda p: 0),
         Out("keltner_channel_lband_indicator", "keltner_channel_lband_indicator",
             fonly=("window", "window_atr", "original_version"), rng=(0, 1), binary=True, fill=0,
             name=lambda p: "dcilband", warm=lambda p: 0)],
        [dict(window=a, window_atr=b, original_version=c, multiplier=d) for a, b, c, d in
         ((1, 1, True, 2), (2, 2, True, 2), (3, 2, True, 2), (2, 1, False, 2), (2, 2, False, 1),
          (3, 2, False, 0.5), (2, 3, False, 2))]),
    Cls(VT, "DonchianChannel", HLC, OD(window=20, offset=0),
        [Out("donchian_channel_hband", "donchian_channel_hband", deg=(1, 0), fill="b",
             name=lambda p: "dchband", warm=lambda p: p["window"] - 1 + p["offset"],
             memory=lambda p: p["window"] + p["offset"]),
         Out("donchian_channel_lband", "donchian_channel_lband", deg=(1, 0), fill="b",
             name=lambda p: "dclband", warm=lambda p: p["window"] - 1 + p["offset"],
             memory=lambda p: p["window"] + p["offset"]),
         Out("donchian_channel_mband", "donchian_channel_mband", fdef=dict(window=10), deg=(1, 0),
             fill="b", name=lambda p: "dcmband", warm=lambda p: p["window"] - 1 + p["offset"],
             memory=lambda p: p["window"] + p["offset"]),
         Out("donchian_channel_wband", "donchian_channel_wband", fdef=dict(window=10), fill=0,
             name=lambda p: "dcwband", warm=lambda p: p["window"] - 1 + p["offset"],
             memory=lambda p: p["window"] + p["offset"]),
         Out("donchian_channel_pband", "donchian_channel_pband", fdef=dict(window=10), fill=0,
             rng=(0, 1), name=lambda p: "dcpband", warm=lambda p: p["window"] - 1 + p["offset"],
             memory=lambda p: p["window"] + p["offset"])],
        [dict(window=a, offset=b) for a, b in ((1, 0), (2, 0), (3, 0), (2, 1), (3, 2), (1, 3))]),
    Cls(VT, "UlcerIndex", (C,), OD(window=14),
        [Out("ulcer_index", "ulcer_index", rng=(0, 100), name=lambda p: "ui", fill=0,
             warm=lambda p: p["window"] - 1, memory=lambda p: 2 * p["window"] - 1)],
        W(1, 2, 3, 4)),
    # ------------------------------------------------------------------ volume
    Cls(VL, "AccDistIndexIndicator", HLCV, OD(),
        [Out("acc_dist_index", "acc_dist_index", deg=(0, 1), name=lambda p: "adi", fill=0,
             warm=lambda p: 0)], [dict()]),
    Cls(VL, "OnBalanceVolumeIndicator", (C, V), OD(),
        [Out("on_balance_volume", "on_balance_volume", deg=(0, 1), name=lambda p: "obv", fill=0,
             warm=lambda p: 0)], [dict()]),
    Cls(VL, "ChaikinMoneyFlowIndicator", HLCV, OD(window=20),
        [Out("chaikin_money_flow", "chaikin_money_flow", rng=(-1, 1), name=lambda p: "cmf",
             fill=0, warm=lambda p: p["window"] - 1, memory=lambda p: p["window"])],
        W(1, 2, 3, 4)),
    Cls(VL, "ForceIndexIndicator", (C, V), OD(window=13),
        [Out("force_index", "force_index", deg=(1, 1), name=lambda p: f"fi_{p['window']}", fill=0,
             warm=lambda p: p["window"])],
        W(1, 2, 3, 4)),
    Cls(VL, "EaseOfMovementIndicator", (H, L, V), OD(window=14),
        [Out("ease_of_movement", "ease_of_movement", deg=(2, -1),
             name=lambda p: f"eom_{p['window']}", fill=0, warm=lambda p: 1, memory=lambda p: 2),
         Out("sma_ease_of_movement", "sma_ease_of_movement", deg=(2, -1),
             name=lambda p: f"sma_eom_{p['window']}", fill=0, warm=lambda p: p["window"],
             memory=lambda p: p["window"] + 1)],
        W(1, 2, 3, 4)),
    Cls(VL, "VolumePriceTrendIndicator", (C, V), OD(smoothing_factor=None, dropnans=False),
        [Out("volume_price_trend", "volume_price_trend", deg=(0, 1), name=lambda p: "vpt", fill=0,
             warm=lambda p: 1 + ((p["smoothing_factor"] or 1) - 1))],
        [dict(smoothing_factor=a, dropnans=b) for a, b in
         ((None, False), (1, False), (2, False), (3, False), (None, True), (2, True))]),
    Cls(VL, "NegativeVolumeIndexIndicator", (C, V), OD(),
        [Out("negative_volume_index", "negative_volume_index", name=lambda p: "nvi", fill=1000,
             warm=lambda p: 0)], [dict()]),
    Cls(VL, "MFIIndicator", HLCV, OD(window=14),
        [Out("money_flow_index", "money_flow_index", rng=(0, 100),
             name=lambda p: f"mfi_{p['window']}", fill=50, warm=lambda p: p["window"] - 1,
             memory=lambda p: p["window"] + 1)],
        W(1, 2, 3, 4)),
    Cls(VL, "VolumeWeightedAveragePrice", HLCV, OD(window=14),
        [Out("volume_weighted_average_price", "volume_weighted_average_price", deg=(1, 0),
             name=lambda p: f"vwap_{p['window']}", fill=0, warm=lambda p: p["window"] - 1,
             memory=lambda p: p["window"])],
        W(1, 2, 3, 4)),
    # ------------------------------------------------------------------ others
    Cls(O, "DailyReturnIndicator", (C,), OD(),
        [Out("daily_return", "daily_return", name=lambda p: "d_ret", fill=0, warm=lambda p: 1,
             memory=lambda p: 2)], [dict()]),
    Cls(O, "DailyLogReturnIndicator", (C,), OD(),
        [Out("daily_log_return", "daily_log_return", name=lambda p: "d_logret", fill=0,
             warm=lambda p: 1, memory=lambda p: 2)], [dict()]),
    Cls(O, "CumulativeReturnIndicator", (C,), OD(),
        [Out("cumulative_return", "cumulative_return", name=lambda p: "cum_ret", fill="b",
             warm=lambda p: 0)], [dict()]),
]

BYNAME = {c.name: c for c in CLASSES}

# The wrapper's published column table: column suffix -> (class, params, accessor, vectorised?)
A = True
N = False
WRAP = OD()
WRAP["add_volume_ta"] = [
    ("volume_adi", "AccDistIndexIndicator", {}, "acc_dist_index", A),
    ("volume_obv", "OnBalanceVolumeIndicator", {}, "on_balance_volume", A),
    ("volume_cmf", "ChaikinMoneyFlowIndicator", dict(window=20), "chaikin_money_flow", A),
    ("volume_fi", "ForceIndexIndicator", dict(window=13), "force_index", A),
    ("volume_em", "EaseOfMovementIndicator", dict(window=14), "ease_of_movement", A),
    ("volume_sma_em", "EaseOfMovementIndicator", dict(window=14), "sma_ease_of_movement", A),
    ("volume_vpt", "VolumePriceTrendIndicator", {}, "volume_price_trend", A),
    ("volume_vwap", "VolumeWeightedAveragePrice", dict(window=14),
     "volume_weighted_average_price", A),
    ("volume_mfi", "MFIIndicator", dict(window=14), "money_flow_index", N),
    ("volume_nvi", "NegativeVolumeIndexIndicator", {}, "negative_volume_index", N),
]
_bb = dict(window=20, window_dev=2)
_kc = dict(window=10, window_atr=10, original_version=True, multiplier=2)
_dc = dict(window=20, offset=0)
WRAP["add_volatility_ta"] = [
    ("volatility_bbm", "BollingerBands", _bb, "bollinger_mavg", A),
    ("volatility_bbh", "BollingerBands", _bb, "bollinger_hband", A),
    ("volatility_bbl", "BollingerBands", _bb, "bollinger_lband", A),
    ("volatility_bbw", "BollingerBands", _bb, "bollinger_wband", A),
    ("volatility_bbp", "BollingerBands", _bb, "bollinger_pband", A),
    ("volatility_bbhi", "BollingerBands", _bb, "bollinger_hband_indicator", A),
    ("volatility_bbli", "BollingerBands", _bb, "bollinger_lband_indicator", A),
    ("volatility_kcc", "KeltnerChannel", _kc, "keltner_channel_mband", A),
    ("volatility_kch", "KeltnerChannel", _kc, "keltner_channel_hband", A),
    ("volatility_kcl", "KeltnerChannel", _kc, "keltner_channel_lband", A),
    ("volatility_kcw", "KeltnerChannel", _kc, "keltner_channel_wband", A),
    ("volatility_kcp", "KeltnerChannel", _kc, "keltner_channel_pband", A),
    ("volatility_kchi", "KeltnerChannel", _kc, "keltner_channel_hband_indicator", A),
    ("volatility_kcli", "KeltnerChannel", _kc, "keltner_channel_lband_indicator", A),
    ("volatility_dcl", "DonchianChannel", _dc, "donchian_channel_lband", A),
    ("volatility_dch", "DonchianChannel", _dc, "donchian_channel_hband", A),
    ("volatility_dcm", "DonchianChannel", _dc, "donchian_channel_mband", A),
    ("volatility_dcw", "DonchianChannel", _dc, "donchian_channel_wband", A),
    ("volatility_dcp", "DonchianChannel", _dc, "donchian_channel_pband", A),
    ("volatility_atr", "AverageTrueRange", dict(window=10), "average_true_range", N),
    ("volatility_ui", "UlcerIndex", dict(window=14), "ulcer_index", N),
]
_macd = dict(window_slow=26, window_fast=12, window_sign=9)
_ich = dict(window1=9, window2=26, window3=52, visual=False)
_ichv = dict(window1=9, window2=26, window3=52, visual=True)
_kst = dict(roc1=10, roc2=15, roc3=20, roc4=30, window1=10, window2=10, window3=10, window4=15,
            nsig=9)
_psar = dict(step=0.02, max_step=0.20)
WRAP["add_trend_ta"] = [
    ("trend_macd", "MACD", _macd, "macd", A),
    ("trend_macd_signal", "MACD", _macd, "macd_signal", A),
    ("trend_macd_diff", "MACD", _macd, "macd_diff", A),
    ("trend_sma_fast", "SMAIndicator", dict(window=12), "sma_indicator", A),
    ("trend_sma_slow", "SMAIndicator", dict(window=26), "sma_indicator", A),
    ("trend_ema_fast", "EMAIndicator", dict(window=12), "ema_indicator", A),
    ("trend_ema_slow", "EMAIndicator", dict(window=26), "ema_indicator", A),
    ("trend_vortex_ind_pos", "VortexIndicator", dict(window=14), "vortex_indicator_pos", A),
    ("trend_vortex_ind_neg", "VortexIndicator", dict(window=14), "vortex_indicator_neg", A),
    ("trend_vortex_ind_diff", "VortexIndicator", dict(window=14), "vortex_indicator_diff", A),
    ("trend_trix", "TRIXIndicator", dict(window=15), "trix", A),
    ("trend_mass_index", "MassIndex", dict(window_fast=9, window_slow=25), "mass_index", A),
    ("trend_dpo", "DPOIndicator", dict(window=20), "dpo", A),
    ("trend_kst", "KSTIndicator", _kst, "kst", A),
    ("trend_kst_sig", "KSTIndicator", _kst, "kst_sig", A),
    ("trend_kst_diff", "KSTIndicator", _kst, "kst_diff", A),
    ("trend_ichimoku_conv", "IchimokuIndicator", _ich, "ichimoku_conversion_line", A),
    ("trend_ichimoku_base", "IchimokuIndicator", _ich, "ichimoku_base_line", A),
    ("trend_ichimoku_a", "IchimokuIndicator", _ich, "ichimoku_a", A),
    ("trend_ichimoku_b", "IchimokuIndicator", _ich, "ichimoku_b", A),
    ("trend_stc", "STCIndicator",
     dict(window_slow=50, window_fast=23, cycle=10, smooth1=3, smooth2=3), "stc", A),
    ("trend_adx", "ADXIndicator", dict(window=14), "adx", N),
    ("trend_adx_pos", "ADXIndicator", dict(window=14), "adx_pos", N),
    ("trend_adx_neg", "ADXIndicator", dict(window=14), "adx_neg", N),
    ("trend_cci", "CCIIndicator", dict(window=20, constant=0.015), "cci", N),
    ("trend_visual_ichimoku_a", "IchimokuIndicator", _ichv, "ichimoku_a", N),
    ("trend_visual_ichimoku_b", "IchimokuIndicator", _ichv, "ichimoku_b", N),
    ("trend_aroon_up", "AroonIndicator", dict(window=25), "aroon_up", N),
    ("trend_aroon_down", "AroonIndicator", dict(window=25), "aroon_down", N),
    ("trend_aroon_ind", "AroonIndicator", dict(window=25), "aroon_indicator", N),
    ("trend_psar_up", "PSARIndicator", _psar, "psar_up", N),
    ("trend_psar_down", "PSARIndicator", _psar, "psar_down", N),
    ("trend_psar_up_indicator", "PSARIndicator", _psar, "psar_up_indicator", N),
    ("trend_psar_down_indicator", "PSARIndicator", _psar, "psar_down_indicator", N),
]
_srsi = dict(window=14, smooth1=3, smooth2=3)
_so = dict(window=14, smooth_window=3)
WRAP["add_momentum_ta"] = [
    ("momentum_rsi", "RSIIndicator", dict(window=14), "rsi", A),
    ("momentum_stoch_rsi", "StochRSIIndicator", _srsi, "stochrsi", A),
    ("momentum_stoch_rsi_k", "StochRSIIndicator", _srsi, "stochrsi_k", A),
    ("momentum_stoch_rsi_d", "StochRSIIndicator", _srsi, "stochrsi_d", A),
    ("momentum_tsi", "TSIIndicator", dict(window_slow=25, window_fast=13), "tsi", A),
    ("momentum_uo", "UltimateOscillator",
     dict(window1=7, window2=14, window3=28, weight1=4.0, weight2=2.0, weight3=1.0),
     "ultimate_oscillator", A),
    ("momentum_stoch", "StochasticOscillator", _so, "stoch", A),
    ("momentum_stoch_signal", "StochasticOscillator", _so, "stoch_signal", A),
    ("momentum_wr", "WilliamsRIndicator", dict(lbp=14), "williams_r", A),
    ("momentum_ao", "AwesomeOscillatorIndicator", dict(window1=5, window2=34),
     "awesome_oscillator", A),
    ("momentum_roc", "ROCIndicator", dict(window=12), "roc", A),
    ("momentum_ppo", "PercentagePriceOscillator", _macd, "ppo", A),
    ("momentum_ppo_signal", "PercentagePriceOscillator", _macd, "ppo_signal", A),
    ("momentum_ppo_hist", "PercentagePriceOscillator", _macd, "ppo_hist", A),
    ("momentum_pvo", "PercentageVolumeOscillator", _macd, "pvo", A),
    ("momentum_pvo_signal", "PercentageVolumeOscillator", _macd, "pvo_signal", A),
    ("momentum_pvo_hist", "PercentageVolumeOscillator", _macd, "pvo_hist", A),
    ("momentum_kama", "KAMAIndicator", dict(window=10, pow1=2, pow2=30), "kama", N),
]
WRAP["add_others_ta"] = [
    ("others_dr", "DailyReturnIndicator", {}, "daily_return", A),
    ("others_dlr", "DailyLogReturnIndicator", {}, "daily_log_return", A),
    ("others_cr", "CumulativeReturnIndicator", {}, "cumulative_return", A),
]
WRAP_INPUTS = {
    "add_volume_ta": HLCV, "add_volatility_ta": HLC, "add_trend_ta": HLC,
    "add_momentum_ta": HLCV, "add_others_ta": (C,), "add_all_ta_features": OHLCV,
}
