"""Relational checks over single indicator classes: C01-C03, C06-C09, C11-C15, C27."""
import functools
import itertools
import math

import api
import formula
import hist
import meta
import reg
from meta import NAN, first_bad, raised, run, runv, spread, vals

np, pd = api.np, api.pd


def unpack(case):
    c = reg.BYNAME[case["cls"]]
    return c, c.full(**case["p"]), case["fillna"], formula.expand(case)


def tol(c, o, bars, more=None):
    ps, vs = hist.pscale(bars), hist.vscale(bars)
    if more:
        ps, vs = max(ps, hist.pscale(more)), max(vs, hist.vscale(more))
    return formula.atol(c, o, bars, ps, vs)


def where(c, o, p, f):
    return f"{c.name}.{o.method} params={dict(p)} fillna={f}"


def guarded(fn):
    @functools.wraps(fn)
    def j(case):
        try:
            return fn(case)
        except Exception as ex:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            last = tb[-1]
            return (f"{case.get('cls')} params={case.get('p')} fillna={case.get('fillna')}: raised "
                    f"{type(ex).__name__}: {ex} ({last.filename}:{last.lineno})")
    return j


# ------------------------------------------------------------------------------------------- C01
def backfilled(c, o, p, f, n, bars):
    """leading rows that have nothing to carry forward and are documented to be back-filled"""
    if not f:
        return 0
    if c.name == "IchimokuIndicator" and p["visual"] and o.method in ("ichimoku_a", "ichimoku_b"):
        return p["window2"]
    if c.name == "PSARIndicator" and o.method in ("psar_up", "psar_down"):
        raw = vals(getattr(api.make(c, p, False, api.series(bars, c.inputs)), o.method)())
        ok = np.flatnonzero(~np.isnan(raw))
        return int(ok[0]) if len(ok) else n
    if o.fill == "b":
        # bars missing from the very start: nothing to carry forward
        x = list(api.series(bars, c.inputs).values())
        lead = 0
        while lead < n and any(np.isnan(v.iloc[lead]) for v in x):
            lead += 1
        return lead + (p["offset"] if c.name == "DonchianChannel" else 0)
    return 0


def other_future(rest, kind):
    if kind == "x3":
        return [(o * 3, h * 3, l * 3, c * 3, v * 5 + 1) for o, h, l, c, v in rest]
    if kind == "half":
        return [(o / 2, h / 2, l / 2, c / 2, v) for o, h, l, c, v in reversed(rest)]
    if kind == "flat":
        return [rest[0]] * len(rest)
    raise KeyError(kind)


@guarded
def j01(case):
    c, p, f, bars = unpack(case)
    n = len(bars)
    full = runv(c, p, f, bars)
    cuts = case.get("cuts")
    if cuts is None:
        cuts = range(1, n)
    elif isinstance(cuts, int):
        cuts = range(1 + n % cuts, n, cuts)
    mask = None
    skiprows = [backfilled(c, o, p, f, n, bars) for o in c.outs]
    for k in cuts:
        if k >= n:
            continue
        runs = [("its first %d bars alone" % k, bars[:k])]
        for a in case.get("futures", ()):
            runs.append(("future '%s' after bar %d" % (a, k - 1),
                         bars[:k] + other_future(bars[k:], a)))
        for what, other in runs:
            got = runv(c, p, f, other)
            for li, (o, x, y) in enumerate(zip(c.outs, full, got)):
                if len(y) != len(other):
                    return f"{where(c, o, p, f)}: {len(y)} rows for {len(other)} bars"
                s = skiprows[li]
                at = tol(c, o, bars, other)
                b = first_bad(x[s:k], y[s:k], at)
                if b >= 0:
                    if mask is None:
                        mask = meta.dontcare(c, p, f, bars)
                    b = first_bad(x[s:k], y[s:k], at, mask[li][s:k])
                if b >= 0:
                    t = b + s
                    return (f"{where(c, o, p, f)}: value at bar {t} depends on later bars: with all "
                            f"{n} bars {x[t]!r}, with {what} {y[t]!r}")
    for o in c.outs if case.get("funcs") else ():
        if o.func is None:
            continue
        k = max(1, n * 2 // 3)
        a = vals(meta.callf(c, o, p, f, bars))
        b = vals(meta.callf(c, o, p, f, bars[:k]))
        s = backfilled(c, o, p, f, n, bars)
        if p.get("dropnans"):
            continue
        t = first_bad(a[s:k], b[s:k], tol(c, o, bars))
        if t >= 0 and not meta.dontcare(c, p, f, bars)[c.outs.index(o)][t + s]:
            return f"function {o.func} params={dict(p)} fillna={f}: value at bar {t + s} depends on later bars"
    return None


def g01(tier, seed):
    q = tier == "quick"
    out = spread(j01, tier, tree=3 if q else 5, path=None, widepath=None, bases=(), mids=False,
                 devbases=(), devs=["up"] if q else ["up", "v0", "tie"], step=10 ** 6,
                 extra={"futures": ["x3"]})
    for c in reg.CLASSES:
        d = formula.default(c)
        n = formula.warm(c, d) + (16 if q else 30)
        slow = c.name == "PSARIndicator"
        for f in (False, True):
            for b in ("walk", "spike", "cross") if q else hist.BASES + tuple(hist.SHIFTED):
                if not formula.fits(c, b):
                    continue
                out.append((meta.t_cases, (j01, c.name, [d], [f], ("base", b, n), {
                    "cuts": (7 if slow else 3) if q else 1, "futures": ["x3"] if q else ["x3", "half", "flat"],
                    "funcs": True}, n)))
            ms = formula.mid_params(c, tier)
            for ch in range(0, len(ms), 5):
                for b in ("walk",) if q else ("walk", "spike", "zigzag"):
                    out.append((meta.t_cases, (j01, c.name, ms[ch:ch + 5], [f], ("base", b, 90),
                                               {"cuts": 23 if q else 7, "futures": ["x3"], "funcs": not q}, 90)))
            out.append((meta.t_cases, (j01, c.name, [dict(x) for x in c.grid], [f],
                                       ("path", "narrow", 2 if q else 3),
                                       {"cuts": 3 if q else 1, "futures": ["half"], "funcs": True}, 30)))
            out.append((meta.t_cases, (j01, c.name, [d], [f], ("base", "walk", 300 if slow else 700 if q else 2500),
                                       {"cuts": [1, 40, 150, 299] + ([500, 650] if not slow else []),
                                        "futures": ["x3"], "funcs": True}, 700)))
            # gaps in the data: a missing value must not be filled from the future
            for kind in ("nan", "nanc"):
                out.append((meta.t_cases, (j01, c.name, [d], [f],
                                           ("dev", "walk", n, [kind], [0, n // 3, n - 4]),
                                           {"cuts": [n // 3, n // 3 + 1, n - 4, n - 3]}, n)))
                for k in (2, 3):
                    out.append((meta.t_cases, (j01, c.name, [dict(x) for x in c.grid[:2]] + [d], [f],
                                               ("dev", "walk", 12, ["%s*%d" % (kind, k)], [0, 1, 6]),
                                               {"cuts": list(range(1, 12))}, 12)))
    return out


# ------------------------------------------------------------------------------------------- C02
REPR_ALL = [(i, "float64") for i in api.INDEXES if i != "range"] + [
    ("range", "strided"), ("range", "readonly"), ("range", "noname"), ("datetime", "samename"),
    ("datetime", "strided"), ("named", "float64")]
REPR_INT = [("range", "int64"), ("datetime", "int64"), ("float", "int64"), ("string", "intvol"),
            ("range", "intvol"), ("range", "uint64"), ("datetime", "uint32"), ("range", "int32"),
            ("string", "uintvol")]
REPR_BIG = [("range", "int64"), ("range", "int32"), ("range", "uint32"), ("datetime", "uint64"), ("range", "intvol"),
            ("range", "uintvol")]
# units at which prices or volumes come near the largest number of a narrow integer type
NARROW_MAX = [("int16", ((12, 0), (0, 13), (6, 6))), ("uint16", ((13, 0), (0, 14))), ("int32", ((28, 0), (0, 29), (14, 14))),
              ("uint32", ((29, 0), (0, 30))),
              ("int8", ((4, 0), (0, 5))), ("uint8", ((5, 0), (0, 6)))]


@guarded
def j02(case):
    c, p, f, bars = unpack(case)
    api.CALLS += 1
    s0 = api.series(bars, c.inputs)
    i0 = api.make(c, p, f, s0)
    ref = [getattr(i0, o.method)() for o in c.outs]
    for o, g in zip(c.outs, ref):
        m = check_frame(c, o, p, f, g, s0[c.inputs[0]].index, "range")
        if m:
            return m
    for idx, dt in case["reprs"]:
        api.CALLS += 1
        s = api.series(bars, c.inputs, idx, dt)
        index = s[c.inputs[0]].index
        inst = api.make(c, p, f, s)
        for o, r in zip(c.outs, ref):
            g = getattr(inst, o.method)()
            tag = f"index={idx} dtype={dt}"
            m = check_frame(c, o, p, f, g, index, tag)
            if m:
                return m
            t = first_bad(vals(r), vals(g), tol(c, o, bars))
            if t >= 0:
                return (f"{where(c, o, p, f)} {tag}: bar {t} is {vals(g)[t]!r}, with a plain index "
                        f"and floats {vals(r)[t]!r}")
            if case.get("funcs") and o.func and (o.fonly is None or c.name in ("MACD",)):
                g = api.func(c, o)(**s, **api.fparams(c, o, p), fillna=f)
                m = check_frame(c, o, p, f, g, index, tag, o.fonly is None)
                if m:
                    return "function " + m
    return None


def check_frame(c, o, p, f, g, index, tag, names=True):
    if not isinstance(g, pd.Series):
        return f"{where(c, o, p, f)} {tag}: result is {type(g).__name__}, not a Series"
    if not p.get("dropnans"):
        if len(g) != len(index):
            return f"{where(c, o, p, f)} {tag}: {len(g)} rows for {len(index)} bars"
        if not g.index.equals(index) or g.index.dtype != index.dtype or list(g.index.names) != list(index.names):
            return f"{where(c, o, p, f)} {tag}: the result is not on the input's index"
        if isinstance(index, pd.DatetimeIndex) and g.index.freq != index.freq:
            return f"{where(c, o, p, f)} {tag}: the result's index has lost its frequency"
    elif not g.index.isin(index).all():
        return f"{where(c, o, p, f)} {tag}: the result is not on the input's index"
    if names and g.name != o.name(p):
        return f"{where(c, o, p, f)} {tag}: result is named {g.name!r}, published name is {o.name(p)!r}"
    return None


def g02(tier, seed):
    q = tier == "quick"
    out = []
    for c in reg.CLASSES:
        d = formula.default(c)
        n = formula.warm(c, d) + 9
        g = [dict(x) for x in c.grid]
        ms = formula.mid_params(c, tier)
        A = {"reprs": REPR_ALL, "funcs": True}
        B = {"reprs": REPR_ALL + REPR_INT, "funcs": True}
        for f in (False, True):
            for b in ("walk",) if q else hist.BASES:
                out.append((meta.t_cases, (j02, c.name, [d], [f], ("base", b, n), A, n)))
            for x in (1, 2, n // 2) if q else range(1, n, 2):
                out.append((meta.t_cases, (j02, c.name, [d] + g[:1], [f], ("base", "zigzag", x), A, x)))
            out.append((meta.t_cases, (j02, c.name, (g[:3] if q else g) + [d], [f], ("path", "narrow", 2), B, 17)))
            out.append((meta.t_cases, (j02, c.name, g[-2:] if q else g + [d], [f], ("path", "mid", 2), B, 37)))
            for u in ((0, 29), (20, 0)):
                # large whole numbers: intermediate products must not overflow 32 bits
                out.append((meta.t_cases, (j02, c.name, g[:2] + g[-1:] + [d], [f], ("path", "narrow", 2, u), {"reprs": REPR_BIG}, 17)))
            whole = ("range", "int8"), ("range", "uint8"), ("datetime", "intvol"), ("range", "int8vol"), ("range", "uint8vol")
            out.append((meta.t_cases, (j02, c.name, g[:1] + g[-1:] + [d], [f], ("base", "whole", n), {"reprs": whole}, 17)))
            whole = ("range", "int16"), ("range", "uint16"), ("range", "int16vol"), ("range", "uint32")
            out.append((meta.t_cases, (j02, c.name, g[:1] + g[-1:] + [d], [f], ("base", "wholebig", n), {"reprs": whole}, 17)))
            for dt, us in NARROW_MAX:
                for u in us:
                    out.append((meta.t_cases, (j02, c.name, g[:1] + g[-1:] + [d], [f], ("path", "narrow", 2, u), {"reprs": [("range", dt)]}, 17)))
            T = {"reprs": [("string", "float64"), ("float", "int64"), ("datetime", "uint64"), ("dup", "strided")],
                 "funcs": False} if q else B
            out.append((meta.t_cases, (j02, c.name, g, [f], ("tree", "narrow", [], 1, 2 if q else 3), T, None)))
            for ch in range(0, len(ms), 10):
                out.append((meta.t_cases, (j02, c.name, ms[ch:ch + 10:4 if q else 1], [f],
                                           ("base", "walk", 80), {"reprs": REPR_ALL[1::3] if q else REPR_ALL}, 80)))
    return out


# ------------------------------------------------------------------------------------------- C03
def snapshot(s):
    return {k: (x.to_numpy().copy(), x.index.copy(deep=True), x.name, x.dtype, dict(x.attrs), x.to_numpy().flags.writeable)
            for k, x in s.items()}


def changed(s, snap):
    for k, (a, i, nm, dt, at, wr) in snap.items():
        x = s[k]
        if x.dtype != dt:
            return f"dtype of {k} changed from {dt} to {x.dtype}"
        if len(x) != len(a):
            return f"length of {k} changed"
        if not x.index.equals(i) or x.index.dtype != i.dtype or list(x.index.names) != list(i.names):
            return f"index of {k} changed"
        if x.name != nm:
            return f"name of {k} changed from {nm!r} to {x.name!r}"
        if dict(x.attrs) != at:
            return f"attrs of {k} changed"
        b = x.to_numpy()
        if b.flags.writeable != wr:
            return f"writeability of {k} changed"
        eq = (a == b) | ((a != a) & (b != b))
        if not bool(np.all(eq)):
            t = int(np.argmin(eq))
            return f"{k} at bar {t} changed from {a[t]!r} to {b[t]!r}"
    return None


def j03(case):
    c, p, f, bars = unpack(case)
    for idx, dt in case["reprs"]:
        s = api.series(bars, c.inputs, idx, dt)
        snap = snapshot(s)
        res = []
        try:
            api.CALLS += 1
            inst = api.make(c, p, f, s)
            for o in c.outs:
                res.append((o.method, getattr(inst, o.method)()))
                res.append((o.method, getattr(inst, o.method)()))
            m = changed(s, snap)
            if m:
                return f"{c.name} params={dict(p)} fillna={f} index={idx} dtype={dt}: {m}"
        except Exception:  # noqa: BLE001 - inputs with gaps may be refused, but never modified
            pass
        for o in c.outs:
            if o.func:
                try:
                    api.CALLS += 1
                    res.append((o.func, api.func(c, o)(**s, **api.fparams(c, o, p), fillna=f)))
                except Exception:  # noqa: BLE001
                    pass
        m = changed(s, snap)
        if m:
            return f"{c.name} functions params={dict(p)} fillna={f} index={idx} dtype={dt}: {m}"
        for name, g in res:
            for k, x in s.items():
                if np.shares_memory(g.to_numpy(), x.to_numpy()):
                    return (f"{c.name} {name} params={dict(p)} fillna={f}: the result is a view of the "
                            f"caller's {k}, so writing to it changes the input")
    return None


def g03(tier, seed):
    q = tier == "quick"
    out = []
    R = [("range", "float64"), ("datetime", "float64"), ("string", "strided")]
    RI = R + [("range", "int64"), ("range", "noname")]
    for c in reg.CLASSES:
        d = formula.default(c)
        n = formula.warm(c, d) + 6
        g = [dict(x) for x in c.grid]
        for f in (False, True):
            out.append((meta.t_cases, (j03, c.name, g, [f], ("tree", "narrow", [], 1, 2 if q else 5), {"reprs": RI[::4] if q else RI}, None)))
            out.append((meta.t_cases, (j03, c.name, g + [d], [f], ("path", "narrow", 3), {"reprs": RI}, 66)))
            for b in ("walk", "flat", "spike", "cross") if q else hist.BASES + tuple(hist.SHIFTED):
                if not formula.fits(c, b):
                    continue
                out.append((meta.t_cases, (j03, c.name, [d] + g[:3], [f], ("base", b, n), {"reprs": R + RI[4:]}, n)))
            for x in (1, 2, 3, 7):
                out.append((meta.t_cases, (j03, c.name, [d] + g[:2], [f], ("base", "walk", x), {"reprs": R + RI[4:]}, x)))
            # missing, infinite and zero cells: what in-place clean-ups would touch
            for k in ("nan", "nanc", "nanhl", "nanv", "infv", "infc", "inf", "neginf", "zero", "v0", "doji", "tie"):
                out.append((meta.t_cases, (j03, c.name, [d] + g[:2], [f],
                                           ("dev", "walk", n, [k], [0, 1, 2, n // 2, n - 1] if q else list(range(n))),
                                           {"reprs": RI[::4] if q else RI}, n)))
                out.append((meta.t_cases, (j03, c.name, g, [f],
                                           ("dev", "walk", 5, [k], [0, 1, 2, 3, 4]), {"reprs": RI[::4] if q else RI}, 5)))
            ms = formula.mid_params(c, tier)
            out.append((meta.t_cases, (j03, c.name, ms[::2 if q else 1], [f], ("base", "walk", 60), {"reprs": R[:1]}, 60)))
    return out


# ------------------------------------------------------------------------------------------- C06
@guarded
def j06(case):
    c, p, f, bars = unpack(case)
    n = len(bars)
    if c.name == "VolumePriceTrendIndicator" and p["dropnans"]:
        s = api.series(bars, c.inputs)
        api.CALLS += 2
        for what, g in (("class", api.make(c, p, False, s).volume_price_trend()),
                        ("function", api.func(c, c.outs[0])(**s, **p, fillna=False))):
            w = 1 + max((p["smoothing_factor"] or 1) - 1, 0)
            if list(g.index) != list(range(w, n)):
                return (f"{where(c, c.outs[0], p, False)} ({what}): rows {list(g.index)[:5]}... of {n} bars are "
                        f"published, expected the rows from {w} on")
        return None
    got = runv(c, p, False, bars)
    mask = None
    for li, (o, x) in enumerate(zip(c.outs, got)):
        if o.warm is None:
            w = warm6(c, o, p)
            if w is None:
                continue
        else:
            w = o.warm(p)
        if len(x) != n:
            return f"{where(c, o, p, False)}: {len(x)} rows for {n} bars"
        head = x[:w]
        if c.zero_warm:
            bad = ~((head == 0) | np.isnan(head))
        else:
            bad = ~np.isnan(head)
        if bad.any():
            t = int(np.argmax(bad))
            return (f"{where(c, o, p, False)}: bar {t} already shows {x[t]!r}, but a full window needs "
                    f"{w + 1} bars")
        tail = x[w:]
        nanrow = np.isnan(tail)
        if nanrow.any():
            if mask is None:
                mask = undefined(c, p, bars)
            nanrow = nanrow & ~mask[li][w:]
            if nanrow.any():
                t = int(np.argmax(nanrow)) + w
                return (f"{where(c, o, p, False)}: bar {t} is undefined although {w + 1} bars are enough "
                        f"and the bars are ordinary")
    if c.name == "PSARIndicator":
        up, dn = got[1], got[2]
        for t in range(n):
            k = int(up[t] == up[t]) + int(dn[t] == dn[t])
            if k != (1 if t >= 2 else 0):
                return (f"{where(c, c.outs[1], p, False)}: bar {t} shows {k} of the two stop lines "
                        f"(up={up[t]!r}, down={dn[t]!r})")
    return None


def warm6(c, o, p):
    if c.name == "KeltnerChannel":
        if o.method in ("keltner_channel_mband", "keltner_channel_wband", "keltner_channel_pband",
                        "keltner_channel_hband", "keltner_channel_lband"):
            return max(p["window"] - 1, 0)
    return None


def undefined(c, p, bars):
    """rows where the definition itself has no value (or only rounding decides)"""
    import model
    exp = model.run(c, p, False, bars, hist.is_exact(bars), hist.pscale(bars))
    return [np.array([x is None or x != x for x in col], dtype=bool) for col in exp]


def g06(tier, seed):
    q = tier == "quick"
    return spread(j06, tier, fills=(False,), tree=4 if q else 7, path=4 if q else 5, prefix=True,
                  devbases=("walk", "zigzag", "up"), step=4 if q else 1, long=500)


# ------------------------------------------------------------------------------------------- C07
@guarded
def j07(case):
    c, p, f, bars = unpack(case)
    n = len(bars)
    if p.get("dropnans"):
        return None
    got = run(c, p, True, bars)
    if case.get("funcs"):
        for o in c.outs:
            if o.func:
                g = meta.callf(c, o, p, True, bars)
                v = vals(g)
                if len(v) != n or not np.isfinite(v).all():
                    return f"function {o.func} params={dict(p)} fillna=True: gap left in the result"
    exp = None
    raw = None
    for li, (o, g) in enumerate(zip(c.outs, got)):
        v = vals(g)
        if len(v) != n:
            return f"{where(c, o, p, True)}: {len(v)} rows for {n} bars"
        ok = np.isfinite(v)
        if not ok.all():
            t = int(np.argmin(ok))
            return f"{where(c, o, p, True)}: bar {t} is still {v[t]!r}"
        if exp is None:
            exp = formula.expected(c, p, True, bars)
        at = tol(c, o, bars)
        for t, (e, x) in enumerate(zip(exp[li], v.tolist())):
            if not formula.same(e, x, at):
                return f"{where(c, o, p, True)}: bar {t} of {n} filled with {x!r}, expected {e!r}"
        if o.memory is not None and c.name not in ("AroonIndicator",):
            if raw is None:
                raw = runv(c, p, False, bars)
                skip = meta.dontcare(c, p, False, bars)
            r = raw[li]
            w = o.warm(p) if o.warm else 0
            if o.binary:
                w = o.memory(p) - 1
            sel = np.isfinite(r) & ~skip[li]
            sel[:w] = False
            b = first_bad(np.where(sel, r, 0.0), np.where(sel, v, 0.0), at)
            if b >= 0:
                return (f"{where(c, o, p, True)}: filling changed bar {b}, which is defined without it: "
                        f"{r[b]!r} became {v[b]!r}")
    return None


def g07(tier, seed):
    q = tier == "quick"
    return spread(j07, tier, fills=(True,), tree=4 if q else 6, path=3 if q else 4, prefix=True,
                  bases=hist.BASES + tuple(hist.SHIFTED), devbases=("walk", "flat", "zigzag"), step=4 if q else 1,
                  extra={"funcs": True}, long=500, filt=lambda c, p: not p.get("dropnans"))


# ------------------------------------------------------------------------------------------- C08
@guarded
def j08(case):
    c, p, f, bars = unpack(case)
    for idx, dt in case["reprs"]:
        got = run(c, p, f, bars, idx, dt)
        for o, g in zip(c.outs, got):
            if not isinstance(g, pd.Series) or len(g) != len(bars):
                return f"{where(c, o, p, f)}: {len(g)} rows for {len(bars)} bars"
    if case.get("funcs"):
        for o in c.outs:
            if o.func:
                g = meta.callf(c, o, p, f, bars)
                if not p.get("dropnans") and len(g) != len(bars):
                    return f"function {o.func} params={dict(p)} fillna={f}: {len(g)} rows for {len(bars)} bars"
    return None


def g08(tier, seed):
    q = tier == "quick"
    out = []
    R = [("range", "float64"), ("datetime", "float64"), ("float", "float64"), ("string", "readonly")]
    for c in reg.CLASSES:
        d = formula.default(c)
        w = formula.warm(c, d)
        ms = formula.mid_params(c, tier)
        for f in (False, True):
            for b in ("walk", "flat", "below") if q else hist.BASES + tuple(hist.SHIFTED):
                if not formula.fits(c, b):
                    continue
                out.append((meta.t_cases, (j08, c.name, [d], [f], ("prefix", b, 1, w + 5),
                                           {"reprs": R[:2] if q else R, "funcs": True}, None)))
            out.append((meta.t_cases, (j08, c.name, [dict(x) for x in c.grid], [f],
                                       ("prefix", "walk", 1, 14), {"reprs": R, "funcs": True}, None)))
            out.append((meta.t_cases, (j08, c.name, [dict(x) for x in c.grid], [f],
                                       ("prefix", "flat", 1, 8), {"reprs": R, "funcs": True}, None)))
            for ch in range(0, len(ms), 4):
                ps = ms[ch:ch + 4]
                wm = min(130, max(formula.warm(c, c.full(**x)) for x in ps) + 3)
                out.append((meta.t_cases, (j08, c.name, ps, [f], ("prefix", "walk", 1, wm if not q else min(wm, 45)),
                                           {"reprs": R[:1], "funcs": False}, None)))
            out.append((meta.t_cases, (j08, c.name, [dict(x) for x in c.grid] + [d], [f],
                                       ("tree", "narrow", [], 1, 2 if q else 4), {"reprs": R[:2]}, None)))
    return out


# ------------------------------------------------------------------------------------------- C09
def fcall_params(c, o, p):
    """class parameters that the function form stands for"""
    q = dict(c.params)
    q.update(o.fdef)
    q.update(api.fparams(c, o, p))
    return q


def positional(c, fp, f):
    """published order of the parameters after the price series"""
    if c.name == "VolumePriceTrendIndicator":
        return [f] + list(fp.values())
    if c.name == "KeltnerChannel":
        v = list(fp.values())
        return v[:2] + [f] + v[2:]
    return list(fp.values()) + [f]


@guarded
def j09(case):
    c, p, f, bars = unpack(case)
    s = api.series(bars, c.inputs)
    for o in c.outs:
        if o.func is None:
            continue
        fn = api.func(c, o)
        fp = api.fparams(c, o, p)
        api.CALLS += 3
        q = fcall_params(c, o, p)
        ref = getattr(api.make(c, q, f, s), o.method)()
        forms = [("keywords", fn(**s, **fp, fillna=f)),
                 ("positions", fn(*[s[k] for k in c.inputs], *positional(c, fp, f)))]
        if not f:
            forms.append(("no fillna", fn(**s, **fp)))
        if "short" in case:
            q2 = {**c.params, **o.fdef}
            if not (c.name == "SMAIndicator" and "window" not in o.fdef):
                ref2 = getattr(api.make(c, q2, f, s), o.method)()
                g2 = fn(**s, fillna=f)
                m = sameseries(ref2, g2, tol(c, o, bars))
                if m:
                    return f"function {o.func} with its defaults, fillna={f}: {m}"
                ref3 = getattr(api.cls_of(c)(*[s[k] for k in c.inputs], *positional(c, q, f)), o.method)()
                m = sameseries(ref, ref3, tol(c, o, bars))
                if m:
                    return f"{c.name} with positional arguments, fillna={f}: {m}"
            if not any(v is None for v in c.params.values()) or c.name == "VolumePriceTrendIndicator":
                ref4 = getattr(api.make(c, c.params, f, s), o.method)()
                g4 = getattr(api.cls_of(c)(**s, fillna=f), o.method)()
                m = sameseries(ref4, g4, tol(c, o, bars))
                if m:
                    return f"{c.name} with its defaults, fillna={f}: {m}"
                if not f:
                    for what, g5 in (("class", getattr(api.cls_of(c)(**s), o.method)()),
                                     ("class, positions", getattr(api.cls_of(c)(*[s[k] for k in c.inputs]), o.method)())):
                        m = sameseries(ref4, g5, tol(c, o, bars))
                        if m:
                            return f"{c.name} ({what}) called with nothing but its series: {m}"
            if not f and not (c.name == "SMAIndicator"):
                q2 = {**c.params, **o.fdef}
                ref6 = getattr(api.make(c, q2, False, s), o.method)()
                m = sameseries(ref6, fn(*[s[k] for k in c.inputs]), tol(c, o, bars))
                if m:
                    return f"function {o.func} called with nothing but its series: {m}"
        for what, g in forms:
            m = sameseries(ref, g, tol(c, o, bars))
            if m:
                return f"function {o.func} ({what}) params={fp} fillna={f}: {m}"
    return None


def sameseries(ref, g, at):
    if len(ref) != len(g):
        return f"{len(g)} rows, the class gives {len(ref)}"
    if not ref.index.equals(g.index):
        return "different index from the class"
    t = first_bad(vals(ref), vals(g), at)
    if t >= 0:
        return f"bar {t} is {vals(g)[t]!r}, the class gives {vals(ref)[t]!r}"
    return None


def g09(tier, seed):
    q = tier == "quick"
    out = spread(j09, tier, tree=3 if q else 5, path=3, bases=("walk", "spike", "zigzag", "giant", "cross", "below") if q else hist.BASES + tuple(hist.SHIFTED),
                 devbases=("walk",), step=9 if q else 1, prefix=False, long=600)
    for c in reg.CLASSES:
        d = formula.default(c)
        n = formula.warm(c, d) + 20
        for b in hist.BASES:
            out.append((meta.t_cases, (j09, c.name, [d], [False, True], ("base", b, n), {"short": 1}, n)))
        out.append((meta.t_cases, (j09, c.name, [d], [False, True], ("prefix", "walk", 1, n), {"short": 1}, None)))
    return out


# ------------------------------------------------------------------------------------------- C11
SCALES = [(2.0 ** 10, 1.0), (2.0 ** -12, 1.0), (1.0, 2.0 ** 6), (1.0, 2.0 ** -6), (2.0 ** -4, 2.0 ** 9),
          (2.0 ** 20, 2.0 ** 12), (2.0 ** -30, 2.0 ** -20), (1.0, 2.0 ** 30)]


def scaled(bars, a, b):
    return [(o * a, h * a, l * a, c * a, v * b) for o, h, l, c, v in bars]


@guarded
def j11(case):
    c, p, f, bars = unpack(case)
    ref = runv(c, p, f, bars)
    mask = None
    for a, b in case["scales"]:
        if a != 1.0 and c.inputs == ("volume",) or b != 1.0 and "volume" not in c.inputs:
            if not (a != 1.0 and b != 1.0):
                continue
        got = runv(c, p, f, scaled(bars, a, b))
        for li, (o, x, y) in enumerate(zip(c.outs, ref, got)):
            k = a ** o.deg[0] * b ** o.deg[1]
            at = tol(c, o, bars)
            neutral = (f and o.deg != (0, 0) and o.fill not in (0, "b", "close", None))
            t = first_bad(x, y / k, at)
            if t >= 0:
                if mask is None:
                    mask = meta.dontcare(c, p, f, bars)
                t = first_bad(x, y / k, at, mask[li])
            if t >= 0 and not neutral:
                return (f"{where(c, o, p, f)}: prices x{a:g}, volumes x{b:g}: bar {t} goes from {x[t]!r} to "
                        f"{y[t]!r}, expected a factor {k:g}")
    return None


def g11(tier, seed):
    q = tier == "quick"
    return spread(j11, tier, tree=3 if q else 6, path=3, bases=("walk", "spike", "penny", "giant", "cross", "below") if q else hist.BASES + tuple(hist.SHIFTED),
                  devbases=("walk",), step=12 if q else 2, extra={"scales": SCALES},
                  long=400)


# ------------------------------------------------------------------------------------------- C12
def envelope(bars, hi, lo, w):
    """running or windowed extremes of two columns"""
    n = len(bars)
    H = [b[hi] for b in bars]
    L = [b[lo] for b in bars]
    if w is None:
        return np.maximum.accumulate(H), np.minimum.accumulate(L)
    return (np.array([max(H[max(0, i - w + 1):i + 1]) for i in range(n)]),
            np.array([min(L[max(0, i - w + 1):i + 1]) for i in range(n)]))


LOWER0 = {("MassIndex", "mass_index"), ("AverageTrueRange", "average_true_range"),
          ("VortexIndicator", "vortex_indicator_pos"), ("VortexIndicator", "vortex_indicator_neg"),
          ("BollingerBands", "bollinger_wband"), ("DonchianChannel", "donchian_channel_wband"),
          ("NegativeVolumeIndexIndicator", "negative_volume_index"), ("UlcerIndex", "ulcer_index"),
          ("KeltnerChannel", "keltner_channel_wband")}
BETWEEN = {   # line inside the extremes of: (upper column, lower column, window or None=all history)
    ("SMAIndicator", "sma_indicator"): (3, 3, lambda p: p["window"]),
    ("WMAIndicator", "wma"): (3, 3, lambda p: p["window"]),
    ("EMAIndicator", "ema_indicator"): (3, 3, lambda p: None),
    ("KAMAIndicator", "kama"): (3, 3, lambda p: None),
    ("BollingerBands", "bollinger_mavg"): (3, 3, lambda p: p["window"]),
    ("VolumeWeightedAveragePrice", "volume_weighted_average_price"): (1, 2, lambda p: p["window"]),
    ("IchimokuIndicator", "ichimoku_conversion_line"): (1, 2, lambda p: p["window1"]),
    ("IchimokuIndicator", "ichimoku_base_line"): (1, 2, lambda p: p["window2"]),
    ("PSARIndicator", "psar"): (1, 2, lambda p: None),
}


@guarded
def j12(case):
    c, p, f, bars = unpack(case)
    if p.get("dropnans"):
        return None
    mask = None
    for li, (o, g) in enumerate(zip(c.outs, runv(c, p, f, bars))):
        key = (c.name, o.method)
        lo = hi = None
        at = tol(c, o, bars)
        if o.rng:
            lo, hi = o.rng
            at = max(1e-9 * max(abs(lo), abs(hi)), 1e-9)
        elif key in LOWER0:
            lo, hi = 0.0, math.inf
            at = 1e-9 * max(1.0, hist.pscale(bars)) if o.deg[0] else 1e-9
        elif key == ("CumulativeReturnIndicator", "cumulative_return") or \
                key == ("DailyReturnIndicator", "daily_return") or key == ("ROCIndicator", "roc"):
            lo, hi, at = -100.0, math.inf, 1e-9
        elif key in BETWEEN:
            a, b, w = BETWEEN[key]
            hi, lo = envelope(bars, a, b, w(p))
            at = 1e-9 * hist.pscale(bars)
            if f and key[0] in ("WMAIndicator", "KAMAIndicator", "VolumeWeightedAveragePrice"):
                wn = p["window"]
                if key[0] == "WMAIndicator":
                    lo = np.where(np.arange(len(bars)) < wn - 1, 0.0, lo)
                if key[0] == "KAMAIndicator":
                    pass
            if key[0] == "VolumeWeightedAveragePrice" and f:
                lo = np.minimum(lo, np.minimum.accumulate(lo))
                lo = np.where(np.cumsum([b[4] for b in bars]) == 0, 0.0, lo)
                hi = np.maximum.accumulate(hi)
            if key[0] == "IchimokuIndicator" and f:
                pass
        else:
            continue
        with np.errstate(all="ignore"):
            bad = ~np.isnan(g) & ~((g >= lo - at) & (g <= hi + at))
        if key in LOWER0 or hi is math.inf:
            bad &= ~np.isposinf(g)
        if o.binary:
            bad |= ~np.isnan(g) & (g != 0) & (g != 1)
        if bad.any():
            if mask is None:
                mask = meta.dontcare(c, p, f, bars)
            bad &= ~mask[li]
            if bad.any():
                t = int(np.argmax(bad))
                L = lo if np.isscalar(lo) else lo[t]
                Hh = hi if np.isscalar(hi) else hi[t]
                return f"{where(c, o, p, f)}: bar {t} is {g[t]!r}, outside [{L!r}, {Hh!r}]"
    if c.name == "PSARIndicator" and not f:
        _, up, dn, ui, di = runv(c, p, f, bars)
        for t, b in enumerate(bars):
            e = 1e-9 * hist.pscale(bars)
            if t > 2 and not ui[t] and up[t] > b[2] + e:
                return f"{where(c, c.outs[1], p, f)}: bar {t}: stop {up[t]!r} above the low {b[2]!r} in an uptrend"
            if t > 2 and not di[t] and dn[t] < b[1] - e:
                return f"{where(c, c.outs[2], p, f)}: bar {t}: stop {dn[t]!r} below the high {b[1]!r} in a downtrend"
            if t > 2 and not ui[t] and up[t] > min(bars[t - 1][2], bars[t - 2][2]) + e:
                return f"{where(c, c.outs[1], p, f)}: bar {t}: rising stop {up[t]!r} above one of the two lows before"
            if t > 2 and not di[t] and dn[t] < max(bars[t - 1][1], bars[t - 2][1]) - e:
                return f"{where(c, c.outs[2], p, f)}: bar {t}: falling stop {dn[t]!r} below one of the two highs before"
    return None


def keep12(c):
    return any(o.rng or (c.name, o.method) in LOWER0 or (c.name, o.method) in BETWEEN for o in c.outs) or \
        c.name in ("CumulativeReturnIndicator", "DailyReturnIndicator", "ROCIndicator")


def g12(tier, seed):
    q = tier == "quick"
    return spread(j12, tier, keep=keep12, tree=4 if q else 7, path=4 if q else 5, bases=hist.BASES,
                  devbases=("walk", "spike", "flat"), step=5 if q else 1, long=800,
                  filt=lambda c, p: not p.get("dropnans"))


# ------------------------------------------------------------------------------------------- C13
def bands(c, cols):
    d = {o.method: x for o, x in zip(c.outs, cols)}
    if c.name == "BollingerBands":
        k = ("bollinger_mavg", "bollinger_hband", "bollinger_lband", "bollinger_wband", "bollinger_pband",
             "bollinger_hband_indicator", "bollinger_lband_indicator")
    elif c.name == "KeltnerChannel":
        k = tuple("keltner_channel_" + x for x in ("mband", "hband", "lband", "wband", "pband",
                                                   "hband_indicator", "lband_indicator"))
    else:
        k = tuple("donchian_channel_" + x for x in ("mband", "hband", "lband", "wband", "pband"))
    return [d.get(x) for x in k] + [None] * (7 - len(k))


def lagged(x, k):
    return x if not k else np.concatenate([np.full(min(k, len(x)), NAN), x])[:len(x)]


@guarded
def j13(case):
    c, p, f, bars = unpack(case)
    cols = runv(c, p, f, bars)
    m, h, l, w, pb, hi, li = bands(c, cols)
    close = np.array([b[3] for b in bars])
    n = len(bars)
    ps = hist.pscale(bars)
    e = 1e-7 * ps
    tag = f"{c.name} params={dict(p)} fillna={f}"

    def fail(bad, text):
        if bad.any():
            t = int(np.argmax(bad))
            return (f"{tag}: bar {t}: {text} (lower {l[t]!r}, middle {m[t]!r}, upper {h[t]!r}, width {w[t]!r}, "
                    f"position {pb[t]!r}, close {close[t]!r})")
    with np.errstate(all="ignore"):
        ok = ~np.isnan(m) & ~np.isnan(h) & ~np.isnan(l)
        part = (np.isnan(m) != np.isnan(h)) | (np.isnan(h) != np.isnan(l))
        r = fail(part, "only some of the three lines are defined")
        r = r or fail(ok & ((l > m + e) | (m > h + e)), "lines out of order")
        if r:
            return r
        r = fail(ok & (np.abs((h + l) / 2 - m) > 10 * e + 1e-9 * np.abs(m)), "middle is not half way")
        if r:
            return r
        dx = meta.dontcare(c, p, f, bars)
        names = [o.method for o in c.outs]
        anyw = dx[[i for i, x in enumerate(names) if x.endswith("wband")][0]]
        anyp = dx[[i for i, x in enumerate(names) if x.endswith("pband")][0]]
        wide = (h - l) > 1e-6 * ps
        # relative to the middle line for centred bands; Donchian uses the mean close of its window
        if c.name != "DonchianChannel":
            ew = (h - l) / m * 100
            sel = ok & ~anyw & np.isfinite(ew)
            r = r or fail(sel & (np.abs(w - ew) > 1e-5 + 1e-6 * np.abs(ew)), f"width should be 100 x (upper-lower)/middle")
        else:
            W = p["window"]
            cs = pd.Series(close)
            mc = cs.rolling(W, min_periods=0 if f else W).mean().to_numpy()
            if f:
                k = p["offset"]
                sel = np.arange(n) >= k
            else:
                sel = np.ones(n, dtype=bool)
            k = p["offset"]
            mc = lagged(mc, k)
            ew = (h - l) / mc * 100
            sel &= ok & ~anyw & np.isfinite(ew)
            r = r or fail(sel & (np.abs(w - ew) > 1e-5 + 1e-6 * np.abs(ew)), "width should be 100 x (upper-lower)/mean close")
        if True:
            k = p.get("offset", 0)
            ep = (lagged(close, k) - l) / (h - l)
            sel = ok & ~anyp & wide & np.isfinite(ep) & (np.arange(n) >= k)
            r = r or fail(sel & (np.abs(pb - ep) > 1e-5 + 1e-6 * np.abs(ep)), "position should be (close-lower)/(upper-lower)")
        if hi is not None:
            ah = dx[[i for i, x in enumerate(names) if x.endswith("hband_indicator")][0]]
            al = dx[[i for i, x in enumerate(names) if x.endswith("lband_indicator")][0]]
            eh = np.where(close > h, 1.0, 0.0)
            el = np.where(close < l, 1.0, 0.0)
            far = (np.abs(close - h) > e) | (close == h)
            r = r or fail((far | ~ok) & ~ah & (hi != eh), "upper flag disagrees with close and upper line")
            far = (np.abs(close - l) > e) | (close == l)
            r = r or fail((far | ~ok) & ~al & (li != el), "lower flag disagrees with close and lower line")
    return r


def g13(tier, seed):
    q = tier == "quick"
    return spread(j13, tier, classes=["BollingerBands", "KeltnerChannel", "DonchianChannel"],
                  tree=6 if q else 7, path=4 if q else 6, widepath=3, bases=hist.BASES + tuple(hist.SHIFTED),
                  devbases=hist.BASES, step=1, prefix=True, long=1500)


# ------------------------------------------------------------------------------------------- C14
def neg(x, k):
    return -x


# (class, line) -> (mirrored line, f(x, K))
MIRROR = {}


def _m(cls, line, other=None, fn=neg):
    MIRROR[(cls, line)] = (other or line, fn)


_m("RSIIndicator", "rsi", fn=lambda x, k: 100 - x)
for _l in ("stoch", "stoch_signal"):
    _m("StochasticOscillator", _l, fn=lambda x, k: 100 - x)
_m("WilliamsRIndicator", "williams_r", fn=lambda x, k: -100 - x)
_m("UltimateOscillator", "ultimate_oscillator", fn=lambda x, k: 100 - x)
_m("AwesomeOscillatorIndicator", "awesome_oscillator")
for _l in ("macd", "macd_signal", "macd_diff"):
    _m("MACD", _l)
_m("TSIIndicator", "tsi")
_m("CCIIndicator", "cci")
_m("DPOIndicator", "dpo")
_m("AccDistIndexIndicator", "acc_dist_index")
_m("ChaikinMoneyFlowIndicator", "chaikin_money_flow")
_m("ForceIndexIndicator", "force_index")
for _l in ("ease_of_movement", "sma_ease_of_movement"):
    _m("EaseOfMovementIndicator", _l)
_same = lambda x, k: x  # noqa: E731
_m("AroonIndicator", "aroon_up", "aroon_down", _same)
_m("AroonIndicator", "aroon_down", "aroon_up", _same)
_m("AroonIndicator", "aroon_indicator")
_m("ADXIndicator", "adx", fn=_same)
_m("ADXIndicator", "adx_pos", "adx_neg", _same)
_m("ADXIndicator", "adx_neg", "adx_pos", _same)
_m("VortexIndicator", "vortex_indicator_pos", "vortex_indicator_neg", _same)
_m("VortexIndicator", "vortex_indicator_neg", "vortex_indicator_pos", _same)
_m("VortexIndicator", "vortex_indicator_diff")
_m("AverageTrueRange", "average_true_range", fn=_same)
_k = lambda x, k: k - x  # noqa: E731
for _a, _b in (("mavg", "mavg"), ("hband", "lband"), ("lband", "hband")):
    _m("BollingerBands", "bollinger_" + _a, "bollinger_" + _b, _k)
for _a, _b in (("hband_indicator", "lband_indicator"), ("lband_indicator", "hband_indicator")):
    _m("BollingerBands", "bollinger_" + _a, "bollinger_" + _b, _same)
    _m("KeltnerChannel", "keltner_channel_" + _a, "keltner_channel_" + _b, _same)
_m("BollingerBands", "bollinger_pband", fn=lambda x, k: 1 - x)
for _a, _b in (("mband", "mband"), ("hband", "lband"), ("lband", "hband")):
    _m("KeltnerChannel", "keltner_channel_" + _a, "keltner_channel_" + _b, _k)
    _m("DonchianChannel", "donchian_channel_" + _a, "donchian_channel_" + _b, _k)
_m("KeltnerChannel", "keltner_channel_pband", fn=lambda x, k: 1 - x)
_m("DonchianChannel", "donchian_channel_pband", fn=lambda x, k: 1 - x)
_m("SMAIndicator", "sma_indicator", fn=_k)
_m("EMAIndicator", "ema_indicator", fn=_k)
_m("WMAIndicator", "wma", fn=_k)
_m("KAMAIndicator", "kama", fn=_k)
_m("VolumeWeightedAveragePrice", "volume_weighted_average_price", fn=_k)
for _l in ("ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b"):
    _m("IchimokuIndicator", _l, fn=_k)
_m("STCIndicator", "stc", fn=lambda x, k: 100 - x)
for _l in ("stochrsi", "stochrsi_k", "stochrsi_d"):
    _m("StochRSIIndicator", _l, fn=lambda x, k: 1 - x)
MIRROR_CLASSES = sorted({a for a, _ in MIRROR})


def mirrored(bars, k):
    return [(k - o, k - l, k - h, k - c, v) for o, h, l, c, v in bars]


@guarded
def j14(case):
    c, p, f, bars = unpack(case)
    k = 2.0 * hist.pscale(bars) if "base" in case else 24.0
    mb = mirrored(bars, k)
    a = runv(c, p, False, bars)
    b = runv(c, p, False, mb)
    names = [o.method for o in c.outs]
    dx = dy = None
    for li, o in enumerate(c.outs):
        if (c.name, o.method) not in MIRROR:
            continue
        other, fn = MIRROR[(c.name, o.method)]
        lj = names.index(other)
        x, y = fn(a[li], k), b[lj]
        at = tol(c, o, bars, mb) * 10
        t = first_bad(x, y, at)
        if t < 0:
            continue
        if dx is None:
            dx, dy = unclear(c, p, bars), unclear(c, p, mb)
        t = first_bad(x, y, at, dx[li] | dy[lj])
        if t >= 0:
            return (f"{where(c, o, p, False)}: bar {t} is {a[li][t]!r}; on the mirrored prices {other} is "
                    f"{y[t]!r}, expected {x[t]!r}")
    return None


def unclear(c, p, bars):
    """rows where the mirrored definition has a one-sided convention: no change at all, or 0/0"""
    import model
    exp = model.run(c, p, False, bars, hist.is_exact(bars), hist.pscale(bars))
    out = [np.array([x is None for x in col], dtype=bool) for col in exp]
    n = len(bars)
    if c.name in ("RSIIndicator", "StochRSIIndicator"):
        # an index over no change at all is 100 by convention, in both directions
        cl = [b[3] for b in bars]
        w = p["window"]
        still = [all(x == cl[0] for x in cl[:i + 1]) or (w == 1 and i and cl[i] == cl[i - 1])
                 for i in range(n)]
        reach = 1 if c.name == "RSIIndicator" else w + p["smooth1"] + p["smooth2"]
        m = np.zeros(n, dtype=bool)
        for i in range(w - 1, n):
            if still[i]:
                m[i:i + reach] = True
        out = [o | m for o in out]
    return out


def g14(tier, seed):
    q = tier == "quick"
    return spread(j14, tier, classes=MIRROR_CLASSES, fills=(False,), tree=4 if q else 6, path=4,
                  bases=("walk", "zigzag", "up", "down", "spike", "cross", "below") if q else hist.BASES + tuple(hist.SHIFTED),
                  devbases=("walk", "zigzag"), step=5 if q else 1, long=600)


# ------------------------------------------------------------------------------------------- C15
def pasts(bars, k, kind):
    """replace the first k bars"""
    if kind == "x3":
        return [(o * 3, h * 3, l * 3, c * 3, v * 2 + 1) for o, h, l, c, v in bars[:k]] + bars[k:]
    if kind == "rev":
        return bars[:k][::-1] + bars[k:]
    if kind == "quiet":
        return [bars[k]] * k + bars[k:]
    if kind in ("gap", "gapc", "gaphl", "gapv"):
        # the newest of the older bars is missing
        return hist.deviate(bars, k - 1, {"gap": "nan", "gapc": "nanc", "gaphl": "nanhl", "gapv": "nanv"}[kind])
    raise KeyError(kind)


@guarded
def j15(case):
    c, p, f, bars = unpack(case)
    n = len(bars)
    ref = runv(c, p, False, bars)
    mask = None
    for li, o in enumerate(c.outs):
        if o.memory is None:
            continue
    mem = [o.memory(p) if o.memory else None for o in c.outs]
    if not any(mem):
        return None
    m0 = min(x for x in mem if x)
    ks = range(1, n - m0 + 1)
    if "step" in case:
        ks = range(1 + n % case["step"], n - m0 + 1, case["step"])
    for k in ks:
        runs = [(kind, pasts(bars, k, kind)) for kind in case["pasts"] if k < n]
        runs.append(("cut", bars[k:]))
        for kind, other in runs:
            if not other:
                continue
            got = runv(c, p, False, other)
            for li, (o, x, y) in enumerate(zip(c.outs, ref, got)):
                if not mem[li]:
                    continue
                s = k + mem[li] - 1          # first row that cannot see bar k-1
                if s >= n:
                    continue
                yy = y[s:] if kind != "cut" else y[s - k:]
                at = tol(c, o, bars, other) * 10
                t = first_bad(x[s:], yy, at)
                if t >= 0:
                    if mask is None:
                        mask = {}
                    ex = hist.is_exact(bars) and (kind.startswith("gap") or hist.is_exact(other))
                    if ex not in mask:
                        mask[ex] = meta.dontcare(c, p, False, bars, exact=ex)
                    mk = mask[ex][li][s:]
                    t = first_bad(x[s:], yy, at, mk)
                if t >= 0:
                    return (f"{where(c, o, p, False)}: bar {t + s} sees bars older than its {mem[li]} most "
                            f"recent ones: {x[t + s]!r} became {yy[t]!r} after changing bars before {k} ({kind})")
    return None


def g15(tier, seed):
    q = tier == "quick"
    keep = lambda c: any(o.memory for o in c.outs)  # noqa: E731
    P = {"pasts": ["x3", "quiet", "gap"] if q else ["x3", "rev", "quiet", "gap", "gapc", "gaphl", "gapv"]}
    out = spread(j15, tier, keep=keep, fills=(False,), tree=4 if q else 6, path=None, widepath=None, bases=(),
                 mids=False, devs=["up"], devbases=(), step=10 ** 6, extra=P)
    for c in reg.CLASSES:
        if not keep(c):
            continue
        d = formula.default(c)
        n = formula.warm(c, d) + 30
        ms = formula.mid_params(c, tier)
        for b in ("walk", "zigzag", "up", "cross") if q else hist.BASES + tuple(hist.SHIFTED):
            if not formula.fits(c, b):
                continue
            out.append((meta.t_cases, (j15, c.name, [d], [False], ("base", b, n), dict(P, step=3 if q else 1), n)))
        # many times the longest window
        out.append((meta.t_cases, (j15, c.name, [d] + [dict(x) for x in c.grid][-1:], [False], ("base", "walk", 1700), dict(P, step=640), 1700)))
        out.append((meta.t_cases, (j15, c.name, [dict(x) for x in c.grid], [False], ("path", "narrow", 3),
                                   dict(P, step=7 if q else 1), 66)))
        for ch in range(0, len(ms), 5):
            out.append((meta.t_cases, (j15, c.name, ms[ch:ch + 5], [False], ("base", "walk", 110),
                                       dict(P, step=19 if q else 4), 110)))
        cs = formula.combos(c, tier)
        for ch in range(0, len(cs), 8):
            out.append((meta.t_cases, (j15, c.name, cs[ch:ch + 8], [False], ("base", "walk", 40),
                                       dict(P, step=11 if q else 3), 40)))
            out.append((meta.t_cases, (j15, c.name, cs[ch:ch + 8], [False], ("path", "narrow", 2),
                                       dict(P, step=5 if q else 2), 17)))
        out.append((meta.t_cases, (j15, c.name, [d], [False], ("base", "walk", 600), dict(P, step=97), 600)))
    return out


# ------------------------------------------------------------------------------------------- C28
@guarded
def j28(case):
    """histories with wholly missing bars: what the fixed-window lines publish"""
    c, p, f, bars = unpack(case)
    exp = formula.expected(c, p, False, bars)
    got = runv(c, p, False, bars)
    for o, e, g in zip(c.outs, exp, got):
        if o.memory is None or o.binary:
            continue
        if len(g) != len(bars):
            return f"{where(c, o, p, False)}: {len(g)} rows for {len(bars)} bars"
        at = tol(c, o, bars) * 10
        for t, (x, y) in enumerate(zip(e, g)):
            if not formula.same(x, y, at):
                gaps = [i for i, b in enumerate(bars) if b[3] != b[3]]
                return f"{where(c, o, p, False)}: bars {gaps} are missing; bar {t} is {y!r}, expected {x!r}"
    return None


def g28(tier, seed):
    q = tier == "quick"
    keep = lambda c: any(o.memory for o in c.outs)  # noqa: E731
    filt = lambda c, p: not p.get("dropnans")  # noqa: E731
    out = spread(j28, tier, keep=keep, fills=(False,), tree=4 if q else 6, tree_kind="gaps", path=3 if q else 4,
                 widepath=None, bases=(), mids=False, combos=False, devs=["nan", "nan*2", "nan*5"],
                 devbases=("walk", "spike"), step=3 if q else 1, filt=filt)
    for c in reg.CLASSES:
        if not keep(c):
            continue
        d = formula.default(c)
        n = formula.warm(c, d) + 30
        out.append((meta.t_cases, (j28, c.name, [d], [False], ("dev2", "walk", n, ["nan"], list(range(0, n, 7 if q else 3))), {}, n)))
        for ms in (formula.mid_params(c, tier), formula.combos(c, tier)):
            for ch in range(0, len(ms), 8):
                out.append((meta.t_cases, (j28, c.name, ms[ch:ch + 8], [False],
                                           ("dev", "walk", 110, ["nan"], [0, 1, 30, 57] if q else list(range(0, 80, 9))), {}, 110)))
        out.append((meta.t_cases, (j28, c.name, [d], [False], ("dev", "walk", 600, ["nan"], [3, 300]), {}, 600)))
    return out


# ------------------------------------------------------------------------------------------- C29
SHIFT0 = {"RSIIndicator": "*", "TSIIndicator": "*", "UltimateOscillator": "*", "StochasticOscillator": "*",
          "WilliamsRIndicator": "*", "StochRSIIndicator": "*", "AwesomeOscillatorIndicator": "*", "MACD": "*",
          "DPOIndicator": "*", "AroonIndicator": "*", "CCIIndicator": "*", "ADXIndicator": "*", "VortexIndicator": "*",
          "STCIndicator": "*", "MassIndex": "*", "AverageTrueRange": "*", "ForceIndexIndicator": "*",
          "EaseOfMovementIndicator": "*", "AccDistIndexIndicator": "*", "OnBalanceVolumeIndicator": "*",
          "ChaikinMoneyFlowIndicator": "*", "PercentageVolumeOscillator": "*",
          "PSARIndicator": ("psar_up_indicator", "psar_down_indicator"),
          "BollingerBands": ("bollinger_pband", "bollinger_hband_indicator", "bollinger_lband_indicator"),
          "KeltnerChannel": ("keltner_channel_pband", "keltner_channel_hband_indicator", "keltner_channel_lband_indicator"),
          "DonchianChannel": ("donchian_channel_pband",)}
SHIFT1 = {"EMAIndicator": "*", "SMAIndicator": "*", "WMAIndicator": "*", "KAMAIndicator": "*", "IchimokuIndicator": "*",
          "VolumeWeightedAveragePrice": "*", "PSARIndicator": ("psar", "psar_up", "psar_down"),
          "BollingerBands": ("bollinger_mavg", "bollinger_hband", "bollinger_lband"),
          "KeltnerChannel": ("keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband"),
          "DonchianChannel": ("donchian_channel_mband", "donchian_channel_hband", "donchian_channel_lband")}


def raised_by(bars, d):
    return [(o + d, h + d, l + d, c + d, v) for o, h, l, c, v in bars]


@guarded
def j29(case):
    c, p, f, bars = unpack(case)
    a = runv(c, p, f, bars)
    mask = None
    for d in case["by"]:
        other = raised_by(bars, d)
        b = runv(c, p, f, other)
        m2 = None
        for li, o in enumerate(c.outs):
            k = None
            for table, unit in ((SHIFT0, 0.0), (SHIFT1, 1.0)):
                x = table.get(c.name)
                if x and (x == "*" or o.method in x):
                    k = unit
            if k is None:
                continue
            x = a[li] + k * d
            at = tol(c, o, bars, other) * 10
            t = first_bad(x, b[li], at)
            if t < 0:
                continue
            if mask is None:
                mask = meta.dontcare(c, p, f, bars)
            if m2 is None:
                m2 = meta.dontcare(c, p, f, other)
            skip = mask[li] | m2[li]
            if f and k:
                # neutral values and zero fillings are not prices
                skip = skip | (np.isfinite(a[li]) & (a[li] == b[li]))
            t = first_bad(x, b[li], at, skip)
            if t >= 0:
                return (f"{where(c, o, p, f)}: bar {t} is {a[li][t]!r}; with every price {d} higher it is "
                        f"{b[li][t]!r}, expected {x[t]!r}")
    return None


def g29(tier, seed):
    q = tier == "quick"
    keep = lambda c: c.name in SHIFT0 or c.name in SHIFT1  # noqa: E731
    D = {"by": [96.0] if q else [96.0, 3.0, 1536.0]}
    return spread(j29, tier, keep=keep, fills=(False, True), tree=4 if q else 6, path=4,
                  bases=("walk", "zigzag", "up", "down", "spike", "penny") if q else hist.BASES + tuple(hist.SHIFTED),
                  devbases=("walk", "zigzag"), step=5 if q else 1, long=600, extra=D)


# ------------------------------------------------------------------------------------------- C27
@guarded
def j27(case):
    c, p, f, bars = unpack(case)
    if c.name == "WilliamsRIndicator":
        w = p["lbp"]
        wr = runv(c, p, f, bars)[0]
        st = runv(reg.BYNAME["StochasticOscillator"], {"window": w, "smooth_window": 3}, f, bars)[0]
        return ident("WilliamsRIndicator", p, f, wr, st - 100, 1e-7, "%K of the stochastic oscillator - 100")
    if c.name == "DailyReturnIndicator":
        dr = runv(c, p, f, bars)[0]
        dlr = runv(reg.BYNAME["DailyLogReturnIndicator"], {}, f, bars)[0]
        cr = runv(reg.BYNAME["CumulativeReturnIndicator"], {}, f, bars)[0]
        roc = runv(reg.BYNAME["ROCIndicator"], {"window": 1}, f, bars)[0]
        z = np.nan_to_num(dr, nan=0.0)
        g = np.cumprod(1 + z / 100)
        return ident("returns", p, f, cr, (g - 1) * 100, 1e-6 * max(1.0, float(g.max())), "compounded daily returns") or \
            ident("returns", p, f, np.nan_to_num(dlr, nan=0.0), np.log1p(z / 100) * 100, 1e-7, "100 x log(1 + daily return)") or \
            ident("returns", p, f, np.nan_to_num(roc, nan=0.0), z, 1e-7, "rate of change over one bar equals the daily return")
    cols = {o.method: x for o, x in zip(c.outs, runv(c, p, f, bars))}
    ps, vs = hist.pscale(bars), hist.vscale(bars)
    at = 1e-9 * ps
    if c.name == "MACD":
        return ident(c.name, p, f, cols["macd_diff"], cols["macd"] - cols["macd_signal"], at, "line - signal")
    if c.name == "PercentagePriceOscillator":
        return ident(c.name, p, f, cols["ppo_hist"], cols["ppo"] - cols["ppo_signal"], 1e-8, "line - signal")
    if c.name == "PercentageVolumeOscillator":
        return ident(c.name, p, f, cols["pvo_hist"], cols["pvo"] - cols["pvo_signal"], 1e-8, "line - signal", True)
    if c.name == "KSTIndicator":
        return ident(c.name, p, f, cols["kst_diff"], cols["kst"] - cols["kst_sig"], 1e-7, "line - signal")
    if c.name == "AroonIndicator":
        return ident(c.name, p, f, cols["aroon_indicator"], cols["aroon_up"] - cols["aroon_down"], 1e-8, "up - down")
    if c.name == "VortexIndicator":
        if f:
            return None
        return ident(c.name, p, f, cols["vortex_indicator_diff"],
                     cols["vortex_indicator_pos"] - cols["vortex_indicator_neg"], 1e-8, "plus - minus")
    if c.name == "IchimokuIndicator":
        if p["visual"]:
            if f:
                return None
            k = p["window2"]
            e = (cols["ichimoku_conversion_line"] + cols["ichimoku_base_line"]) / 2
            e = np.concatenate([np.full(min(k, len(e)), NAN), e])[:len(e)]
            return ident(c.name, p, f, cols["ichimoku_a"], e, at, "mean of conversion and base, shifted")
        return ident(c.name, p, f, cols["ichimoku_a"],
                     (cols["ichimoku_conversion_line"] + cols["ichimoku_base_line"]) / 2, at,
                     "mean of conversion and base")
    if c.name == "PSARIndicator":
        if f:
            return None
        u, d = cols["psar_up"], cols["psar_down"]
        s = cols["psar"]
        for t in range(2, len(bars)):
            x = u[t] if u[t] == u[t] else d[t]
            if abs(x - s[t]) > at:
                return f"PSARIndicator params={dict(p)}: bar {t}: psar {s[t]!r}, but the active stop is {x!r}"
            up, dn = cols["psar_up_indicator"][t], cols["psar_down_indicator"][t]
            if up and not (u[t] == u[t] and u[t - 1] != u[t - 1]) or dn and not (d[t] == d[t] and d[t - 1] != d[t - 1]):
                return f"PSARIndicator params={dict(p)}: bar {t}: a reversal is flagged where the trend does not start"
            if t > 2 and u[t] == u[t] and u[t - 1] != u[t - 1] and not up or \
                    t > 2 and d[t] == d[t] and d[t - 1] != d[t - 1] and not dn:
                return f"PSARIndicator params={dict(p)}: bar {t}: the trend changed without a reversal flag"
        return None
    if c.name == "StochasticOscillator":
        k = pd.Series(cols["stoch"]).rolling(p["smooth_window"], min_periods=0 if f else p["smooth_window"]).mean()
        if f:
            return None
        skip = meta.dontcare(c, p, f, bars)[1]
        return ident(c.name, p, f, cols["stoch_signal"], k.to_numpy(), 1e-6, "moving average of %K", skip=skip)
    if c.name == "EaseOfMovementIndicator" and not f:
        w = p["window"]
        e = cols["ease_of_movement"]
        s = np.array([e[t - w + 1:t + 1].sum() / w if t >= w - 1 else NAN for t in range(len(e))])
        skip = meta.dontcare(c, p, f, bars)[1] | ~np.isfinite(s)
        return ident(c.name, p, f, cols["sma_ease_of_movement"], s,
                     formula.atol(c, c.outs[1], bars, ps, vs), "mean of the raw line", skip=skip)
    return None


def ident(name, p, f, got, exp, at, text, zero=False, skip=None):
    with np.errstate(all="ignore"):
        if zero:
            fin = np.isfinite(exp)
            got, exp = np.where(fin, got, 0.0), np.where(fin, exp, 0.0)
            at = at * max(1.0, float(np.nanmax(np.abs(exp))) if len(exp) else 1.0)
        t = first_bad(exp, got, at, skip)
    if t >= 0:
        return f"{name} params={dict(p)} fillna={f}: bar {t} is {got[t]!r}, but {text} gives {exp[t]!r}"
    return None


IDENT = ["WilliamsRIndicator", "DailyReturnIndicator", "MACD", "PercentagePriceOscillator",
         "PercentageVolumeOscillator", "KSTIndicator", "AroonIndicator", "VortexIndicator",
         "IchimokuIndicator", "PSARIndicator", "StochasticOscillator", "EaseOfMovementIndicator"]


def g27(tier, seed):
    q = tier == "quick"
    return spread(j27, tier, classes=IDENT, tree=5 if q else 7, path=4, widepath=3 if not q else 2, bases=hist.BASES,
                  devbases=("walk", "spike", "zigzag"), step=2 if q else 1, prefix=True, long=1000)
