"""Formula checks: every enumerated history is run through the reference machine and through the
real code, and the two are compared line by line, bar by bar."""
import itertools
import math

import api
import hist
import model
import reg

np, pd = api.np, api.pd
NAN = float("nan")

# absolute tolerances where the value is a ratio of small differences
ATOL = {
    ("StochRSIIndicator", "*"): 1e-6, ("STCIndicator", "*"): 2e-3,
    ("BollingerBands", "bollinger_wband"): 1e-5, ("BollingerBands", "bollinger_pband"): 1e-6,
    ("CCIIndicator", "*"): 1e-6, ("TSIIndicator", "*"): 1e-6,
    ("UltimateOscillator", "*"): 1e-6,
    ("DailyReturnIndicator", "*"): 1e-11, ("DailyLogReturnIndicator", "*"): 1e-11,
    ("CumulativeReturnIndicator", "*"): 1e-11, ("ROCIndicator", "*"): 1e-11,
}
RTOL = 1e-9


def atol(c, o, bars, ps, vs):
    a = ATOL.get((c.name, "*")) or ATOL.get((c.name, o.method))
    if a:
        return a
    dp, dv = o.deg
    if c.name == "EaseOfMovementIndicator":
        vmin = min([b[4] for b in bars if b[4] > 0] or [1.0])
        return 1e-12 * 1e8 * ps * ps / vmin
    if c.name == "BollingerBands" and dp == 1 and o.method != "bollinger_mavg":
        return 1e-7 * ps
    s = (ps ** dp if dp else 1.0) * (vs ** dv if dv else 1.0)
    if dp == 0 and dv == 0:
        return 1e-8
    return 1e-10 * s * max(1, len(bars) if dv else 1)


def same(e, g, at):
    """expected (may be ANY) against got"""
    if e is None:
        return True
    if e != e:
        return g != g
    if g != g:
        return False
    if e in (math.inf, -math.inf) or g in (math.inf, -math.inf):
        return e == g
    return abs(e - g) <= at + RTOL * abs(e)


def expected(c, p, fillna, bars):
    return model.run(c, p, fillna, bars, hist.is_exact(bars), hist.pscale(bars))


def expand(case):
    """history of a case: literal bars, or a base trajectory with deviations"""
    if "bars" in case:
        return [tuple(b) for b in case["bars"]]
    if "seq" in case:
        k, n, alpha = case["seq"]
        al = [tuple(b) for b in alpha]
        bars = [al[i] for i in hist.debruijn(k, n)]
        if "unit" in case:
            bars = hist.scaled(bars, 2.0 ** case["unit"][0], 2.0 ** case["unit"][1])
        if "affine" in case:
            a, b = case["affine"]
            bars = [(a * o + b, a * h + b, a * l + b, a * c + b, v) for o, h, l, c, v in bars]
        return bars
    bars = hist.base(case["base"], case["n"])
    for i, k in case.get("dev", ()):
        bars = hist.deviate(bars, i, k)
    return bars


def diff(c, p, exp, got, bars, index, what):
    ps, vs = hist.pscale(bars), hist.vscale(bars)
    dropn = bool(p.get("dropnans"))
    for o, e, g in zip(c.outs, exp, got):
        if not isinstance(g, pd.Series):
            return f"{what} {o.method}: result is not a Series"
        if len(g) != len(e):
            return f"{what} {o.method}: {len(g)} rows for {len(e)} bars"
        at = atol(c, o, bars, ps, vs)
        v = g.to_numpy(dtype="float64", na_value=NAN) if g.dtype == object else g.to_numpy(
            dtype="float64")
        for t, (x, y) in enumerate(zip(e, v.tolist())):
            if not same(x, y, at):
                return (f"{what} {c.name}.{o.method} params={dict(p)} bar {t} of {len(e)}: "
                        f"expected {x!r}, got {y!r}")
        if not dropn and index is not None and not g.index.equals(index):
            return f"{what} {c.name}.{o.method}: index differs from the input's"
    return None


def judge(case, exp=None):
    c = reg.BYNAME[case["cls"]]
    p = c.full(**case["p"])
    f = case["fillna"]
    bars = expand(case)
    if exp is None:
        exp = expected(c, p, f, bars)
    idx, dt = case.get("index", "range"), case.get("dtype", "float64")
    try:
        s = api.series(bars, c.inputs, idx, dt)
        index = s[c.inputs[0]].index
        form = case.get("form", "class")
        if form == "class":
            inst = api.make(c, p, f, s)
            got = [getattr(inst, o.method)() for o in c.outs]
        elif form == "numpy":      # parameters as they come out of an array
            q = {k: np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int) else
                 np.float64(v) if isinstance(v, float) else v for k, v in p.items()}
            inst = api.make(c, q, np.bool_(f), s)
            got = [getattr(inst, o.method)() for o in c.outs]
        elif form == "again":      # accessors in reverse order, then once more in order
            inst = api.make(c, p, f, s)
            rev = [getattr(inst, o.method)() for o in reversed(c.outs)][::-1]
            m = diff(c, p, exp, rev, bars, index, "reverse order")
            if m:
                return m
            got = [getattr(inst, o.method)() for o in c.outs]
        elif form == "func":
            got, exps = [], []
            for o, e in zip(c.outs, exp):
                if o.func is None:
                    continue
                fp = api.fparams(c, o, p)
                rest = {k: v for k, v in p.items() if k not in fp}
                if any(v != o.fdef.get(k, c.params[k]) for k, v in rest.items()):
                    continue
                g = api.func(c, o)(**s, **fp, fillna=f)
                m = diff(_one(c, o), p, [e], [g], bars, index, "function " + o.func)
                if m:
                    return m
            return None
        else:
            raise KeyError(form)
    except Exception as ex:  # noqa: BLE001  - any exception on a valid history is a finding
        return f"{c.name} params={dict(p)} fillna={f} n={len(bars)}: raised {type(ex).__name__}: {ex}"
    return diff(c, p, exp, got, bars, index, f"fillna={f} index={idx} dtype={dt}")


class _one:
    def __init__(self, c, o):
        self.name, self.outs = c.name, [o]


# ------------------------------------------------------------------------------------- alphabets
_S = hist.SHAPES
HL_NARROW = [hist.bar(*s, 1) for s in ((1, 2, 3), (2, 2, 2), (3, 3, 6), (1, 4, 4))]
HLC_NARROW = HL_NARROW
HLCV_NARROW = [hist.bar(1, 2, 3, 1), hist.bar(3, 6, 6, 3), hist.bar(2, 2, 2, 2),
               hist.bar(1, 1, 4, 0)]
CV_NARROW = [hist.bar(2, 2, 2, 1), hist.bar(1, 1, 1, 3), hist.bar(4, 4, 4, 2),
             hist.bar(2, 2, 2, 0)]


def alphabets(c):
    """(narrow, wide) alphabets for the inputs the class reads"""
    i = c.inputs
    if i == ("close",):
        return hist.CLOSE4, hist.closes((2, 1, 3, 5, 4, 8, 7))
    if i == ("volume",):
        return hist.vols((1, 3, 0, 2)), hist.vols((1, 3, 0, 2, 5, 8))
    if i in (("high", "low"), ("high", "low", "close")):
        return HLC_NARROW, hist.hl(12)
    if i == ("close", "volume"):
        return CV_NARROW, hist.cv((2, 1, 3), (1, 3, 0))
    return HLCV_NARROW, hist.product(_S[:6], (1, 3, 0))


# depth of the full trees: (narrow, wide)
DEPTH = {"quick": (5, 2), "thorough": (7, 3)}
SLOW = {"PSARIndicator", "UltimateOscillator", "KSTIndicator", "KeltnerChannel", "VortexIndicator",
        "StochRSIIndicator", "ADXIndicator", "IchimokuIndicator", "BollingerBands",
        "DonchianChannel"}


# cheap enough for one or two bars more in the quick check
EXTRA = {"PSARIndicator": 2, "DailyReturnIndicator": 2, "DailyLogReturnIndicator": 2, "CumulativeReturnIndicator": 2,
         "AccDistIndexIndicator": 1, "OnBalanceVolumeIndicator": 1, "NegativeVolumeIndexIndicator": 1,
         "VolumePriceTrendIndicator": 1, "AroonIndicator": 1, "ADXIndicator": 1, "VortexIndicator": 1, "CCIIndicator": 1,
         "DPOIndicator": 1, "AverageTrueRange": 1, "SMAIndicator": 1, "EMAIndicator": 1, "WMAIndicator": 1, "KAMAIndicator": 1,
         "ROCIndicator": 1, "WilliamsRIndicator": 1, "RSIIndicator": 1, "UlcerIndex": 1, "DonchianChannel": 1,
         "MFIIndicator": 1, "ForceIndexIndicator": 1, "EaseOfMovementIndicator": 1, "ChaikinMoneyFlowIndicator": 1,
         "VolumeWeightedAveragePrice": 1, "KeltnerChannel": 1, "BollingerBands": 1}


def depths(c, tier):
    n, w = DEPTH[tier]
    if c.name in SLOW:
        n -= 1
    if tier == "quick":
        n += EXTRA.get(c.name, 0)
    if tier == "thorough" and len(alphabets(c)[1]) <= 7:
        w += 1
    return n, w


def default(c):
    p = dict(c.params)
    if c.name == "SMAIndicator":
        p["window"] = 12
    return p


def mid_params(c, tier):
    """one parameter at a time moved away from the defaults, then all windows together"""
    d = default(c)
    out = []
    ints = (1, 2, 3, 5, 8, 13, 21, 34) if tier == "quick" else (
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 21, 25, 26, 30, 34, 40, 50, 55)
    for k, v in d.items():
        if isinstance(v, bool):
            out.append({**d, k: not v})
        elif isinstance(v, int):
            out += [{**d, k: x} for x in ints if x != v]
        elif isinstance(v, float):
            out += [{**d, k: v * m} for m in (1 / 64, 0.25, 0.5, 2.0, 3.0, 64.0)]
    fl = [k for k, v in d.items() if isinstance(v, float)]
    if len(fl) > 1:
        out += [{**d, **{k: d[k] * m for k in fl}} for m in (1 / 64, 0.125, 0.5, 3.0, 64.0)]
    if c.name == "BollingerBands":
        out += [{**d, "window_dev": x} for x in (0.5, 1.5, 2.5)]
    if c.name == "KeltnerChannel":
        out += [{**d, "original_version": False, "window": w, "window_atr": a, "multiplier": m}
                for w, a, m in ((20, 10, 1), (5, 10, 3), (10, 3, 1.5), (13, 21, 2.5))]
    if c.name == "VolumePriceTrendIndicator":
        out += [{**d, "smoothing_factor": x, "dropnans": y} for x in (1, 2, 5, 14, 30)
                for y in (False, True)]
    if c.name == "IchimokuIndicator":
        out += [{**d, "visual": True, "window1": a, "window2": b, "window3": e}
                for a, b, e in ((9, 26, 52), (3, 5, 8), (8, 5, 3))]
    if c.name in ("MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator"):
        out += [{**d, "window_slow": a, "window_fast": b} for a, b in ((12, 26), (10, 10), (5, 35))]
    if c.name == "KSTIndicator":
        out += [{**d, **{f"roc{i}": 9 + 3 * i for i in (1, 2, 3, 4)}},
                {**d, **{f"window{i}": 4 + i for i in (1, 2, 3, 4)}, "nsig": 5}]
    return [p for p in out if ok_params(c, p)]


def values(c, k, v, tier):
    q = tier == "quick"
    if isinstance(v, bool):
        return [False, True]
    if k == "offset":
        return [0, 1, 3, 9] if q else [0, 1, 2, 5, 9, 14]
    if k == "smoothing_factor":
        return [None, 1, 3, 7] if q else [None, 1, 2, 3, 5, 9]
    if k == "window_dev":
        return [1, 2, 0.5, 3]
    if k == "multiplier":
        return [1, 2, 3, 1.5]
    if k == "step":
        return [0.02, 0.05, 0.3]
    if k == "max_step":
        return [0.2, 0.3, 0.37, 1.0]
    if isinstance(v, float):
        return [v, v * 0.5, v * 3.0, v * 0.7]
    return [1, 2, 4, 7] if q else [1, 2, 3, 5, 8, 12]


_combos = {}


def combos(c, tier):
    """small parameter sets in which every pair (thorough: triple) of parameter values occurs together"""
    if (c.name, tier) in _combos:
        return _combos[c.name, tier]
    keys = list(c.params)
    dom = [values(c, k, default(c)[k], tier) for k in keys]
    total = math.prod(len(x) for x in dom)
    if total <= (64 if tier == "quick" else 400):
        rows = [list(x) for x in itertools.product(*dom)]
    else:
        rows = cover(dom, 2 if tier == "quick" else 3)
    out = [p for p in (dict(zip(keys, r)) for r in rows) if ok_params(c, p)]
    _combos[c.name, tier] = out
    return out


def cover(dom, t):
    """greedy covering array of strength t over the domains (deterministic)"""
    t = min(t, len(dom))
    need = set()
    for ks in itertools.combinations(range(len(dom)), t):
        for vs in itertools.product(*(range(len(dom[k])) for k in ks)):
            need.add(tuple(zip(ks, vs)))
    rows = []
    while need:
        row = dict(min(need))
        for k in range(len(dom)):
            if k in row:
                continue
            best, arg = -1, 0
            for v in range(len(dom[k])):
                r2 = {**row, k: v}
                n = 0
                for ks in itertools.combinations(sorted(r2), t):
                    if k in ks and tuple((x, r2[x]) for x in ks) in need:
                        n += 1
                # rotate ties so that values spread
                n = n * 100 + (v + len(rows)) % len(dom[k])
                if n > best:
                    best, arg = n, v
            row[k] = arg
        for ks in itertools.combinations(range(len(dom)), t):
            need.discard(tuple((x, row[x]) for x in ks))
        rows.append([dom[k][row[k]] for k in range(len(dom))])
    return rows


def ok_params(c, p):
    if c.name == "PSARIndicator" and p["step"] > p["max_step"]:
        return False
    if c.name == "StochRSIIndicator" and p["window"] < 2:
        return True
    return True


def fits(c, base):
    """the money flow of a negative typical price is nobody's definition"""
    return hist.SHIFTED.get(base, (0, 0))[1] >= 0 or c.name != "MFIIndicator"


def warm(c, p):
    w = [o.warm(p) for o in c.outs if o.warm]
    ints = [v for v in p.values() if isinstance(v, int) and not isinstance(v, bool)]
    return max(w + ints + [3])


BASES = hist.BASES


def relevant_devs(c):
    d = []
    i = c.inputs
    if "volume" in i:
        d += ["v0", "vbig"]
    if i != ("volume",):
        d += ["up", "down", "tie"]
    if "high" in i:
        d += ["doji", "wide"]
    if "high" in i and "close" in i:
        d += ["high", "low"]
    return d


# ----------------------------------------------------------------------------------------- tasks
def _case(st, case, exp=None, count=True):
    st.n["evaluations"] += 1
    m = judge(case, exp)
    if m:
        st.bad(case, m)
        if len(st.viol) >= 2:
            raise api_stop
    return m


class _Stop(Exception):
    pass


from engine import Stop  # noqa: E402

api_stop = Stop()


def count(st, bars, exp, key="traces"):
    st.n["states"] += len(bars)
    st.n["transitions"] += len(bars)
    st.n["traces"] += 1
    if any(x is None for col in exp for x in col):
        st.n["with_dont_care"] += 1
    if any(x is not None and x == x for col in exp for x in col):
        st.n["nontrivial"] += 1


def t_tree(st, cname, gi, fillna, kind, prefix, lo, hi):
    """every history prefix + w, w over the alphabet, total length lo..hi"""
    c = reg.BYNAME[cname]
    p = c.grid[gi]
    al = alphabets(c)[0 if kind == "narrow" else 1]
    fp = c.full(**p)
    pre = [al[i] for i in prefix]
    for n in range(max(0, lo - len(pre)), hi - len(pre) + 1):
        for w in itertools.product(al, repeat=n):
            bars = pre + list(w)
            if not bars:
                continue
            exp = expected(c, fp, fillna, bars)
            st.n["states"] += 1
            st.n["transitions"] += len(bars)
            st.n["traces"] += 1
            if any(x is None for col in exp for x in col):
                st.n["with_dont_care"] += 1
            if any(x is not None and x == x for col in exp for x in col):
                st.n["nontrivial"] += 1
            case = dict(cls=cname, p=p, fillna=fillna, bars=bars)
            _case(st, case, exp)
    if bars:
        st.sample({"class": cname, "params": p, "fillna": fillna, "history (o,h,l,c,v)": bars})


def t_path(st, cname, ps, fillna, k, n, alpha, unit=None, affine=None):
    """de Bruijn path: every word of n bars occurs, from non-initial states"""
    c = reg.BYNAME[cname]
    for p in ps:
        case = dict(cls=cname, p=p, fillna=fillna, seq=[k, n, alpha])
        if unit:
            case["unit"] = list(unit)
        if affine:
            case["affine"] = list(affine)
        bars = expand(case)
        exp = expected(c, c.full(**p), fillna, bars)
        count(st, bars, exp)
        _case(st, case, exp)


def t_base(st, cname, p, fillna, base, n, devs, positions):
    """base trajectory with one deviation at each position"""
    c = reg.BYNAME[cname]
    fp = c.full(**p)
    for d in [()] if not devs else itertools.product(positions, devs):
        case = dict(cls=cname, p=p, fillna=fillna, base=base, n=n, dev=[list(d)] if d else [])
        bars = expand(case)
        exp = expected(c, fp, fillna, bars)
        count(st, bars, exp)
        _case(st, case, exp)
    st.sample({"class": cname, "params": dict(p), "fillna": fillna, "base": base, "bars": n,
               "deviations": list(devs), "at": "every listed position"})


def t_prefix(st, cname, p, fillna, base, lo, hi):
    """every prefix length of a base trajectory"""
    for n in range(lo, hi + 1):
        t_base(st, cname, p, fillna, base, n, (), ())


def t_repr(st, cname, p, fillna, gen, reprs):
    """one history in every representation and entry form"""
    c = reg.BYNAME[cname]
    case0 = dict(cls=cname, p=p, fillna=fillna, **gen)
    bars = expand(case0)
    exp = expected(c, c.full(**p), fillna, bars)
    count(st, bars, exp)
    for idx, dt, form in reprs:
        _case(st, dict(case0, index=idx, dtype=dt, form=form), exp)
        st.n["representations"] += 1


REPRS = [("range", "float64", "again"), ("range", "float64", "func"), ("range", "float64", "numpy"),
         ("offset", "float64", "class"), ("reversed", "float64", "class"),
         ("datetime", "float64", "class"), ("string", "float64", "again"),
         ("dup", "float64", "class"), ("const", "float64", "class"),
         ("float", "float64", "class"), ("shuffled", "float64", "class"),
         ("datedesc", "float64", "func"), ("multi", "float64", "class"),
         ("step", "float64", "class"), ("negative", "float64", "class"),
         ("range", "strided", "class"), ("range", "readonly", "class")]
INT_REPRS = [("range", "int64", "class"), ("offset", "int64", "func"), ("datetime", "int64", "class")]


def tasks(classes, tier):
    out = []
    q = tier == "quick"
    for name in classes:
        c = reg.BYNAME[name]
        nd, wd = depths(c, tier)
        narrow, wide = alphabets(c)
        d = default(c)
        g = [dict(x) for x in c.grid]
        for f in (False, True):
            for gi in range(len(g)):
                # narrow deep tree, split on the first two letters
                out.append((t_tree, (name, gi, f, "narrow", [], 1, 1)))
                for i in range(len(narrow)):
                    if nd >= 6:
                        for j in range(len(narrow)):
                            out.append((t_tree, (name, gi, f, "narrow", [i, j], 2, nd)))
                    else:
                        out.append((t_tree, (name, gi, f, "narrow", [i], 2, nd)))
                if wd >= 3:
                    for i in range(len(wide)):
                        out.append((t_tree, (name, gi, f, "wide", [i], 2, wd)))
                else:
                    out.append((t_tree, (name, gi, f, "wide", [], 2, wd)))
            # all words of several bars from non-initial states
            mids = mid_params(c, tier)
            cs = combos(c, tier)
            for ch in range(0, len(cs), 16):
                part = cs[ch:ch + 16]
                for b in ("walk", "micro") if q else BASES:
                    out.append((t_mids, (name, part, f, b)))
                out.append((t_path, (name, part, f, len(narrow), 3 if q else 4, narrow)))
            # far beyond the length of any window: nothing may depend on how long the history is
            out.append((t_base, (name, d, f, "walk", 2600 if q else 12000, (), ())))
            for u in ((-20, 0), (20, -20), (-20, 20)):
                out.append((t_path, (name, g, f, len(narrow), 3, narrow, u)))
            # prices below and around zero (spreads, oil in April 2020)
            # (money flow of a negative typical price is nobody's definition)
            for a in ((1, -9), (2, -7)) if fits(c, "below") else ():
                out.append((t_path, (name, g, f, len(narrow), 4 if q else 5, narrow, None, a)))
                out.append((t_path, (name, g, f, len(wide), 2, wide, None, a)))
            # small moves on a high level: nothing may treat nearly equal prices as equal
            for a in ((1, 2 ** 20), (1, 50001), (1, 3999)):
                out.append((t_path, (name, g + [d], f, len(narrow), 4 if q else 5, narrow, None, a)))
            if "volume" in c.inputs:
                out.append((t_mids, (name, g + [d] + mids[::3 if q else 1], f, "bulk")))
            for b in hist.SHIFTED if fits(c, "below") else ():
                out.append((t_mids, (name, g + [d] + mids[::3 if q else 1], f, b)))
            out.append((t_path, (name, g, f, len(narrow), 4 if q else 5, narrow)))
            out.append((t_path, (name, g, f, len(wide), 2, wide)))
            if len(wide) <= 9 or not q:
                out.append((t_path, (name, g, f, len(wide), 3, wide)))
            out.append((t_path, (name, [d] + mids[::3 if q else 1], f, len(wide), 2, wide)))
            # defaults: one deviation anywhere on the base trajectories
            n = warm(c, d) + (25 if q else 40)
            devs = relevant_devs(c)
            heavy = name in ("PSARIndicator",)
            for bi, b in enumerate(BASES):
                out.append((t_base, (name, d, f, b, n, (), ())))
                if q and b not in ("walk", "zigzag", "up"):
                    continue
                if q and heavy and b != "walk":
                    continue
                if b == "flat" and not f and q:
                    continue
                step = 3 if q else 1
                off = bi % step
                for dv in devs:
                    out.append((t_base, (name, d, f, b, n, (dv,), list(range(off, n, step)))))
            # every length around and below the windows
            out.append((t_prefix, (name, d, f, "walk", 1, warm(c, d) + 4)))
            if not q:
                for b in ("zigzag", "spike"):
                    out.append((t_prefix, (name, d, f, b, 1, warm(c, d) + 4)))
            # parameters moved one at a time
            for b in ("walk", "spike") if q else BASES:
                for ch in range(0, len(mids), 8):
                    out.append((t_mids, (name, mids[ch:ch + 8], f, b)))
            # long histories
            out.append((t_base, (name, d, f, "walk", 1500 if q and not heavy else 400 if q else 4000,
                                 (), ())))
            # movement, then a long quiet stretch: decaying averages become tiny but stay what they are
            for ps_ in [{}] + g[:2]:
                out.append((t_base, (name, {**d, **ps_}, f, "settle", warm(c, d) + 120, (), ())))
            if c.inputs == ("close",) and name != "BollingerBands":
                out.append((t_mids, (name, g + [d] + mids[::3 if q else 1], f, "creep")))
            # a departure at either end of a long history
            out.append((t_base, (name, d, f, "walk", 300, ("tiny", "huge"), [0, 1, 150, 298, 299] if q else list(range(0, 300, 13)))))
            # long windows: every whole-number parameter in turn, then all of them
            for w in (100, 200) if q else (60, 75, 100, 144, 200, 252, 365):
                if name in ("PSARIndicator",):
                    continue
                ks = [k for k, v in d.items() if isinstance(v, int) and not isinstance(v, bool)
                      and not (name == "BollingerBands" and k == "window_dev")
                      and not (name == "KeltnerChannel" and k == "multiplier")]
                for k in ks if not q else ks[:1]:
                    out.append((t_base, (name, {**d, k: w}, f, "walk", w + 60 + warm(c, d), (), ())))
            # representations
            for gen in (dict(base="walk", n=warm(c, d) + 8), dict(base="zigzag", n=warm(c, d) + 9)):
                out.append((t_repr, (name, d, f, gen, REPRS)))
            for p in g if not q else g[:3]:
                al = wide
                out.append((t_repr, (name, p, f, dict(seq=[min(5, len(al)), 2, al[:5]]),
                                     REPRS + INT_REPRS)))
    # long tasks first
    return out


def t_mids(st, cname, ps, fillna, base):
    c = reg.BYNAME[cname]
    for p in ps:
        n = min(140, warm(c, c.full(**p)) + 20)
        t_base(st, cname, p, fillna, base, n, (), ())
