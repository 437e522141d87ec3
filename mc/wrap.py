"""The DataFrame entry points: column-table wrappers (C10) and dropna (C16)."""
import itertools
import math

import api
import checks
import formula
import hist
import meta
import reg
from engine import Stop
from meta import first_bad, vals

np, pd = api.np, api.pd
GROUPS = ["add_volume_ta", "add_volatility_ta", "add_trend_ta", "add_momentum_ta", "add_others_ta"]
ALL = GROUPS + ["add_all_ta_features"]
SIG = {"add_volume_ta": ("high", "low", "close", "volume"), "add_volatility_ta": ("high", "low", "close"),
       "add_trend_ta": ("high", "low", "close"), "add_momentum_ta": ("high", "low", "close", "volume"),
       "add_others_ta": ("close",), "add_all_ta_features": ("open", "high", "low", "close", "volume")}
NAMES = {
    "std": dict(open="open", high="high", low="low", close="close", volume="volume"),
    "title": dict(open="Open", high="High", low="Low", close="Close", volume="Volume_(BTC)"),
    "swap": dict(open="volume", high="low", low="close", close="high", volume="open"),
    "num": dict(open=0, high=1, low=2, close=3, volume=4),
    "odd": dict(open="class", high="High Price", low="a.b", close="index", volume="%d"),
    "one": dict(open="px", high="px", low="px", close="px", volume="px"),     # one column in every role
    "mid": dict(open="px", high="px", low="px", close="px", volume="vol"),
}


def frame(bars, names="std", index="range", dtype="float64", extra=False, order=None):
    s = api.series(bars, api.FIELD, index, dtype)
    nm = NAMES[names]
    cols = order or list(api.FIELD)
    df = pd.DataFrame({nm[k]: s[k] for k in cols})
    if extra:
        n = len(bars)
        df["note"] = ["x%d" % i for i in range(n)]
        df["gaps"] = [float("nan") if i % 2 else 1.0 for i in range(n)]
    return df


def table(fn):
    if fn == "add_all_ta_features":
        return [r for g in GROUPS for r in reg.WRAP[g]]
    return reg.WRAP[fn]


def columns(fn, vectorized):
    return [r for r in table(fn) if r[4] or not vectorized or fn == "add_others_ta"]


def callw(fn, df, names="std", positional=False, **kw):
    api.CALLS += 1
    nm = NAMES[names]
    f = getattr(api.ta, fn)
    if positional:
        return f(df, *[nm[k] for k in SIG[fn]], *[kw[k] for k in ("fillna", "colprefix", "vectorized") if k in kw])
    return f(df, **{k: nm[k] for k in SIG[fn]}, **kw)


DECOYS = ["tr", "atr", "rsi", "typical_price", "tp", "mfv", "obv", "returns", "ema", "sma", "hl2", "Close", "Volume", "adj_close"]
_direct = {}


def direct(key, bars, cls, p, method, f):
    """the value of one published line computed by its class, memoised per history"""
    k = (key, cls, tuple(sorted(p.items())), f)
    if k not in _direct:
        if len(_direct) > 600:
            _direct.clear()
        c = reg.BYNAME[cls]
        inst = api.make(c, c.full(**p), f, api.series(bars, c.inputs))
        _direct[k] = {o.method: vals(getattr(inst, o.method)()) for o in c.outs}
    return _direct[k][method]


def kwargs(case):
    kw = dict(fillna=case.get("fillna", False), colprefix=case.get("prefix", ""))
    if case.get("bare"):
        return kw
    if case["fn"] != "add_others_ta":
        kw["vectorized"] = case.get("vectorized", False)
    return kw


def compare(df, before, fn, kw, bars, key, done=()):
    """df after fn: exactly the published columns, each equal to its class, originals untouched"""
    pre = kw["colprefix"]
    rows = [r for g in (list(done) + [fn]) for r in columns(g, kw.get("vectorized", False) )]
    exp = [pre + r[0] for r in rows]
    new = [x for x in df.columns if x not in before.columns]
    miss = [x for x in exp if x not in df.columns]
    if miss:
        return f"columns missing: {miss[:4]}"
    more = [x for x in new if x not in exp]
    if more:
        return f"columns that are not published: {more[:4]}"
    if len(set(map(str, df.columns))) != len(df.columns):
        return "duplicated columns"
    if len(df) != len(bars) or not df.index.equals(before.index):
        return "rows of the frame changed"
    for col in before.columns:
        if col in exp:
            continue
        if not same_col(before[col], df[col]):
            return f"column {col!r} of the caller changed"
    for r in rows:
        g = vals(df[pre + r[0]])
        e = direct(key, bars, r[1], r[2], r[3], kw["fillna"])
        c = reg.BYNAME[r[1]]
        at = checks.tol(c, c.out(r[3]), bars)
        t = first_bad(e, g, at)
        if t >= 0:
            return (f"column {pre + r[0]!r} bar {t} is {g[t]!r}; {r[1]}.{r[3]} with {r[2]} fillna={kw['fillna']} "
                    f"gives {e[t]!r}")
    return None


def same_col(a, b):
    if a.dtype != b.dtype:
        return False
    x, y = a.to_numpy(), b.to_numpy()
    if a.dtype == object:
        return all(p is q or p == q for p, q in zip(x, y))
    return bool(np.all((x == y) | ((x != x) & (y != y))))


@checks.guarded
def j10(case):
    bars = formula.expand(case)
    fn = case["fn"]
    kw = kwargs(case)
    nm = case.get("names", "std")
    if nm in ("one", "mid"):
        bars = [(c, c, c, c, c if nm == "one" else v) for o, h, l, c, v in bars]
    key = nm + str({k: case.get(k) for k in ("bars", "seq", "base", "n", "dev")})
    df = frame(bars, nm, case.get("index", "range"), case.get("dtype", "float64"), case.get("extra", False),
               case.get("order"))
    tag = f"{fn}({kw}, names={nm}, n={len(bars)})"
    if case.get("stale"):
        # columns of the same names are already there, with other content
        for r in columns(fn, kw.get("vectorized", False)):
            df[kw["colprefix"] + r[0]] = 12345.0
    if case.get("decoy"):
        # columns named like published lines (without the prefix) and like intermediate series belong to the caller
        for i, x in enumerate([r[0] for r in table("add_all_ta_features")] + DECOYS):
            df[x] = [float(i + 3 * j % 7) for j in range(len(bars))]
    before = df.copy(deep=True)
    if case.get("stale"):
        before = before[[x for x in before.columns if x in NAMES[nm].values()]]
    out = callw(fn, df, nm, positional=case.get("positional", False), **({} if case.get("bare") else kw))
    m = compare(out, before, fn, kw, bars, key)
    if m:
        return f"{tag}: {m}"
    if case.get("twice"):
        out = callw(fn, out, nm, **kw)
        m = compare(out, before, fn, kw, bars, key)
        if m:
            return f"{tag} called twice: {m}"
    return None


@checks.guarded
def j10o(case):
    """a sequence of wrapper calls on one frame"""
    bars = formula.expand(case)
    key = str({k: case.get(k) for k in ("bars", "seq", "base", "n", "dev")})
    df = frame(bars)
    before = df.copy(deep=True)
    kw = dict(fillna=case["fillna"], colprefix="")
    done = []
    for fn in case["seqn"]:
        k = dict(kw) if fn == "add_others_ta" else dict(kw, vectorized=case["vectorized"])
        df = callw(fn, df, **k)
        m = compare(df, before, fn, dict(kw, vectorized=case["vectorized"]), bars, key, done)
        if m:
            return f"after {done} then {fn}: {m}"
        done.append(fn)
    return None


def t_wrap(st, judge, cases, nb):
    for case in cases:
        c0 = api.CALLS
        m = judge(case)
        n = nb or case.get("n") or len(case.get("bars", ())) or 1
        st.n["states"] += n
        st.n["transitions"] += (api.CALLS - c0) * n
        st.n["evaluations"] += api.CALLS - c0
        st.n["traces"] += api.CALLS - c0
        st.n["cases"] += 1
        st.n["nontrivial"] += 1
        if m:
            st.bad(case, m)
            if len(st.viol) >= 2:
                raise Stop()
    if cases:
        st.sample(cases[-1])


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


WIDE = formula.alphabets(reg.BYNAME["MFIIndicator"])[1]
NARROW = formula.HLCV_NARROW


def g10(tier, seed):
    q = tier == "quick"
    cases = []
    gens = [dict(base=b, n=n) for b in (("walk", "spike") if q else hist.BASES)
            for n in ((1, 2, 17, 60, 110) if q else (1, 2, 3, 5, 8, 13, 17, 30, 45, 60, 75, 90, 110, 200))]
    gens += [dict(seq=[4, 3, NARROW]), dict(seq=[9, 2, WIDE[:9]])]
    for g, fn, f, v, pre in itertools.product(gens, ALL, (False, True), (False, True), ("", "p_")):
        if q and pre and g.get("n") in (2, 17):
            continue
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, prefix=pre))
    for fn, b, n in itertools.product(ALL, ("walk", "flat"), (1, 9, 60)):
        cases.append(dict(base=b, n=n, fn=fn, bare=True))          # every option left out
    g = dict(base="walk", n=66)
    for fn, f, v in itertools.product(ALL, (False, True), (False, True)):
        for nm in ("title", "swap", "num", "odd", "one", "mid"):
            cases.append(dict(g, fn=fn, fillna=f, vectorized=v, names=nm, prefix="q"))
        for idx in api.INDEXES:
            if idx != "range" and (not q or not v):
                cases.append(dict(g, fn=fn, fillna=f, vectorized=v, index=idx, n=40))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, extra=True))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, stale=True))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, decoy=True, prefix="p_"))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, twice=True))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, positional=True, prefix="zz_"))
        cases.append(dict(g, fn=fn, fillna=f, vectorized=v, order=["volume", "low", "close", "open", "high"]))
        for dt in ("int64", "intvol", "strided", "readonly"):
            cases.append(dict(seq=[4, 3, NARROW], fn=fn, fillna=f, vectorized=v, dtype=dt))
    # every single column name that could collide: prefixes that are themselves names
    for pre in ("trend_", "volume_", " ", "ä", "close", "%s", "{0}"):
        for fn in ALL:
            cases.append(dict(base="walk", n=20, fn=fn, fillna=True, vectorized=False, prefix=pre))
    # one deviation anywhere
    n = 64
    for b in ("walk",) if q else ("walk", "zigzag", "up", "flat", "giant"):
        for i, d in itertools.product(range(1, n, 11 if q else 3), ("up", "tie", "doji", "v0", "wide")):
            cases.append(dict(base=b, n=n, dev=[[i, d]], fn="add_all_ta_features", fillna=bool(i % 2)))
    # missing, infinite and zero cells: the wrapper must hand its columns on as they are
    n = 40
    for kind, i in itertools.product(("nan", "nanc", "nanhl", "nanv", "infv", "zero"), (0, 1, n // 2, n - 1)):
        for fn, f, v in itertools.product(ALL, (False, True), (False, True)):
            if q and (fn == "add_all_ta_features" and v or i == 1 and f):
                continue
            cases.append(dict(base="walk", n=n, dev=[[i, kind]], fn=fn, fillna=f, vectorized=v,
                              prefix="x_" if (i + f + v) % 2 else ""))
    heavy = [c for c in cases if c["fn"] == "add_all_ta_features"]
    light = [c for c in cases if c["fn"] != "add_all_ta_features"]
    out = [(t_wrap, (j10, x, None)) for x in chunks(heavy, 6) + chunks(light, 16)]
    # all orders of the five groups, and all ordered pairs with repetition
    seqs = [list(p) for p in itertools.permutations(GROUPS)]
    if q:
        seqs = seqs[::5]
    seqs += [[a, b] for a in ALL for b in ALL]
    oc = [dict(base="walk", n=45, seqn=s, fillna=f, vectorized=v) for s in seqs for f in (False, True)
          for v in (False, True) if not q or not f or v]
    out += [(t_wrap, (j10o, x, 45)) for x in chunks(oc, 5)]
    return out


# --------------------------------------------------------- wrapper parts of C01, C02, C03, C07, C08
@checks.guarded
def j01w(case):
    bars = formula.expand(case)
    fn, kw = case["fn"], kwargs(case)
    n = len(bars)
    full = callw(fn, frame(bars), **kw)
    rows = columns(fn, kw.get("vectorized", False))
    for k in case["cuts"]:
        if k >= n:
            continue
        variants = [("first %d bars alone" % k, bars[:k]),
                    ("another future after bar %d" % (k - 1), bars[:k] + checks.other_future(bars[k:], "x3"))]
        for what, other in variants:
            got = callw(fn, frame(other), **kw)
            for r in rows:
                c = reg.BYNAME[r[1]]
                o = c.out(r[3])
                p = c.full(**r[2])
                s = checks.backfilled(c, o, p, kw["fillna"], n, bars)
                x, y = vals(full[r[0]]), vals(got[r[0]])
                t = first_bad(x[s:k], y[s:k], checks.tol(c, o, bars, other))
                if t >= 0:
                    return f"{fn}({kw}) column {r[0]}: bar {t + s} depends on later bars ({what})"
    return None


def g01w(tier):
    q = tier == "quick"
    cs = [dict(base=b, n=96, fn=fn, fillna=f, vectorized=v, cuts=list(range(1 + 7 * i, 96, 14 if q else 3)))
          for i, (b, fn, f, v) in enumerate(itertools.product(("walk",) if q else hist.BASES, ALL if not q else GROUPS,
                                                              (False, True), (False, True)))]
    if q:
        cs += [dict(base="walk", n=90, fn="add_all_ta_features", fillna=f, vectorized=False, cuts=[12, 40, 77]) for f in (False, True)]
    for c in cs:
        c["cuts"] = [k if k < c["n"] else k % c["n"] + 1 for k in c["cuts"]] or [10, 31, 60, 88]
    return [(t_wrap, (j01w, [c], 96)) for c in cs]


@checks.guarded
def j02w(case):
    bars = formula.expand(case)
    fn, kw = case["fn"], kwargs(case)
    ref = callw(fn, frame(bars), **kw)
    for idx, dt in case["reprs"]:
        df = frame(bars, index=idx, dtype=dt)
        index = df.index.copy(deep=True)
        got = callw(fn, df, **kw)
        if not got.index.equals(index):
            return f"{fn}({kw}) index={idx} dtype={dt}: index changed"
        for r in columns(fn, kw.get("vectorized", False)):
            c = reg.BYNAME[r[1]]
            t = first_bad(vals(ref[r[0]]), vals(got[r[0]]), checks.tol(c, c.out(r[3]), bars))
            if t >= 0:
                return (f"{fn}({kw}) index={idx} dtype={dt} column {r[0]}: bar {t} is {vals(got[r[0]])[t]!r}, on a "
                        f"plain index {vals(ref[r[0]])[t]!r}")
    return None


def g02w(tier):
    q = tier == "quick"
    R = [(i, "float64") for i in api.INDEXES if i != "range"] + [("range", "strided"), ("datetime", "readonly")]
    RI = [("range", "int64"), ("datetime", "int64"), ("string", "intvol")]
    cs = []
    for fn, f in itertools.product(GROUPS, (False, True)):
        for n in (1, 3, 40) if q else (1, 2, 3, 5, 9, 20, 40, 70, 120):
            cs.append(dict(base="walk", n=n, fn=fn, fillna=f, reprs=R))
        cs.append(dict(seq=[4, 2, NARROW], fn=fn, fillna=f, reprs=RI))
    cs += [dict(base="walk", n=30, fn="add_all_ta_features", fillna=f, reprs=[x]) for f in (False, True) for x in R]
    return [(t_wrap, (j02w, [c], None)) for c in cs]


def j03w(case):
    bars = formula.expand(case)
    fn, kw = case["fn"], kwargs(case)
    for idx, dt in case["reprs"]:
        df = frame(bars, index=idx, dtype=dt, extra=True)
        before = df.copy(deep=True)
        df.attrs["source"] = "feed"
        bi = df.index.copy(deep=True)
        try:
            callw(fn, df, **kw)
        except Exception:  # noqa: BLE001 - data with gaps may be refused, never modified
            pass
        if df.attrs != {"source": "feed"} or list(df.index.names) != list(bi.names) or df.columns.name is not None:
            return f"{fn}({kw}) index={idx} dtype={dt}: attributes or axis names of the frame changed"
        if not df.index.equals(bi) or len(df) != len(before):
            return f"{fn}({kw}) index={idx} dtype={dt}: rows or index changed"
        for col in before.columns:
            if col not in df.columns:
                return f"{fn}({kw}): column {col} removed"
            if not same_col(before[col], df[col]):
                return f"{fn}({kw}) index={idx} dtype={dt}: column {col} changed"
        if list(df.columns[:len(before.columns)]) != list(before.columns):
            return f"{fn}({kw}): order of the caller's columns changed"
    return None


def g03w(tier):
    q = tier == "quick"
    R = [("range", "float64"), ("datetime", "float64"), ("dup", "float64")]
    cs = []
    for fn, f in itertools.product(ALL, (False, True)):
        cs.append(dict(base="walk", n=45, fn=fn, fillna=f, reprs=R))
        cs.append(dict(seq=[4, 2, NARROW], fn=fn, fillna=f, reprs=[("range", "int64")]))
        for k in ("nan", "nanc", "nanhl", "nanv", "infv", "infc", "inf", "neginf", "zero", "v0"):
            for i in (0, 7) if q else (0, 1, 7, 30, 39):
                cs.append(dict(base="walk", n=40, dev=[[i, k]], fn=fn, fillna=f, reprs=R[:1]))
    return [(t_wrap, (j03w, x, 40)) for x in chunks(cs, 4)]


@checks.guarded
def j07w(case):
    bars = formula.expand(case)
    fn, kw = case["fn"], kwargs(case)
    df = callw(fn, frame(bars), **kw)
    for r in columns(fn, kw.get("vectorized", False)):
        v = vals(df[r[0]])
        if len(v) != len(bars) or not np.isfinite(v).all():
            t = int(np.argmin(np.isfinite(v)))
            return f"{fn}({kw}) n={len(bars)} column {r[0]}: bar {t} is still {v[t]!r}"
    return None


def g07w(tier):
    q = tier == "quick"
    cs = [dict(base=b, n=n, fn=fn, fillna=True, vectorized=False)
          for fn in GROUPS for b in hist.BASES for n in ((1, 2, 6, 30, 90) if q else list(range(1, 120, 3)))]
    cs += [dict(bars=w, fn=fn, fillna=True, vectorized=False) for fn in GROUPS
           for w in hist.words(NARROW[:3], 1, 2 if q else 4)]
    return [(t_wrap, (j07w, x, None)) for x in chunks(cs, 12)]


@checks.guarded
def j08w(case):
    bars = formula.expand(case)
    fn, kw = case["fn"], kwargs(case)
    df = frame(bars, index=case.get("index", "range"))
    out = callw(fn, df, **kw)
    if len(out) != len(bars):
        return f"{fn}({kw}): {len(out)} rows for {len(bars)} bars"
    miss = [r[0] for r in columns(fn, kw.get("vectorized", False)) if r[0] not in out.columns]
    if miss:
        return f"{fn}({kw}) n={len(bars)}: columns missing: {miss[:4]}"
    return None


def g08w(tier):
    q = tier == "quick"
    cs = [dict(base=b, n=n, fn=fn, fillna=f, vectorized=v, index=i)
          for fn in GROUPS for b, i in (("walk", "range"), ("flat", "datetime"))
          for f, v in ((False, False), (True, False), (True, True))
          for n in range(1, 62, 1 if not q else 2 if fn == "add_trend_ta" else 1)
          if not (q and i == "datetime" and (f or n > 30))]
    cs += [dict(base="walk", n=n, fn="add_all_ta_features", fillna=f) for n in range(1, 62, 4 if q else 1)
           for f in (False, True)]
    return [(t_wrap, (j08w, x, None)) for x in chunks(cs, 12)]


# ------------------------------------------------------------------------------------------- C16
BIG = math.exp(709)
CELLS = [1.0, 0.0, float("nan"), float("inf"), -1.0, BIG, float(np.nextafter(BIG, 0)), -float("inf"), 1e-300, -0.0,
         1e308, 5e-324]
NAMED = {"nan": float("nan"), "inf": float("inf"), "-inf": -float("inf")}


def cell_ok(x):
    return x == x and x != 0.0 and x < BIG


def plain(x):
    return repr(float(x))


@checks.guarded
def j16(case):
    """case: rows of cells (strings), extra columns, index kind"""
    rows = [[float(x) for x in r] for r in case["rows"]]
    n = len(rows)
    k = len(rows[0]) if rows else case.get("k", 2)
    data = {f"c{j}": [r[j] for r in rows] for j in range(k)}
    df = pd.DataFrame(data, index=api.INDEXES[case.get("index", "range")](n))
    for j, t in enumerate(case.get("types", ())[:k]):
        if t == "int64" and all(x == x and abs(x) < 2 ** 53 and x == int(x) for x in data[f"c{j}"]):
            df[f"c{j}"] = df[f"c{j}"].astype("int64")
        if t == "float32":
            df[f"c{j}"] = df[f"c{j}"].astype("float32")
    keep = [all(cell_ok(x) for x in r) for r in rows]
    for j, col in enumerate(case.get("extra", ())):
        kind, holes = col
        if kind == "str":
            v = [None if h else "t%d" % i for i, h in enumerate(holes)]
        elif kind == "empty":
            v = [None if h else "" for i, h in enumerate(holes)]
        elif kind == "date":
            v = [pd.NaT if h else pd.Timestamp("2024-01-01") + pd.Timedelta(i, "D") for i, h in enumerate(holes)]
        elif kind == "bool":
            v = [not h for h in holes]
        elif kind == "num":
            v = [0.0 if h else 1.5 + i for i, h in enumerate(holes)]
        elif kind == "big":
            v = np.array([0 if h else 2 ** 53 + 1 + 2 * i for i, h in enumerate(holes)], dtype="int64")
        elif kind == "small":
            v = np.array([0 if h else 7 + i for i, h in enumerate(holes)], dtype="uint8")
        elif kind == "nint":
            v = pd.array([(None, 0)[i % 2] if h else 7 + i for i, h in enumerate(holes)], dtype="Int64")
        elif kind == "delta":
            v = pd.Series([pd.NaT if h else pd.Timedelta(i, "D") for i, h in enumerate(holes)], dtype="timedelta64[ns]").to_numpy()
        elif kind == "cat":
            v = pd.Categorical([None if h else "ab"[i % 2] for i, h in enumerate(holes)])
        df[f"x{j}"] = v
        if kind != "bool":
            keep = [a and not h for a, h in zip(keep, holes)]
    if case.get("first"):
        df = df[list(df.columns[::-1])]
    if case.get("cols") == "int":
        df.columns = [7 - i for i in range(len(df.columns))]
    elif case.get("cols") == "odd":
        df.columns = pd.Index(["index", "level_0", "a b", "class", "0", "", "sum", "values"][:len(df.columns)], name="field")
    elif case.get("cols") == "multi":
        df.columns = pd.MultiIndex.from_tuples([("x%d" % (i // 2), i) for i in range(len(df.columns))])
    before = df.copy(deep=True)
    api.CALLS += 1
    out = api.ta.utils.dropna(df)
    tag = f"dropna of rows {case['rows']} extra={case.get('extra', [])}"
    if list(df.columns) != list(before.columns) or not df.index.equals(before.index) or len(df) != n or any(
            not same_any(before[c], df[c]) for c in before.columns):
        return f"{tag}: the caller's frame changed"
    if out is df:
        return f"{tag}: returned the caller's frame itself"
    pos = [i for i in range(n) if keep[i]]
    if list(out.columns) != list(before.columns) or list(out.columns.names) != list(before.columns.names):
        return f"{tag}: columns changed"
    if len(out) != len(pos):
        return f"{tag}: {len(out)} rows kept ({list(out.index)}), expected rows {pos}"
    if not out.index.equals(before.index[pos]):
        return f"{tag}: kept rows {list(out.index)}, expected {list(before.index[pos])}"
    for c in before.columns:
        a, b = before[c].iloc[pos].tolist(), out[c].tolist()
        if before[c].dtype != out[c].dtype:
            return f"{tag}: the type of column {c} became {out[c].dtype}, was {before[c].dtype}"
        if a != b:
            return f"{tag}: column {c} of the kept rows is {b}, was {a}"
    return None


def same_any(a, b):
    if a.dtype != b.dtype:
        return False
    x, y = a.tolist(), b.tolist()
    return len(x) == len(y) and all(p is q or p == q or (p != p and q != q) for p, q in zip(x, y))


def t_drop(st, cells, rows, cols, first, kw):
    """every frame of the given shape over the cells, first cell fixed"""
    for rest in itertools.product(cells, repeat=rows * cols - len(first)):
        w = list(first) + list(rest)
        case = dict(rows=[[plain(x) for x in w[i * cols:(i + 1) * cols]] for i in range(rows)], **kw)
        st.n["states"] += 1
        st.n["transitions"] += len(case["rows"])
        st.n["traces"] += 1
        st.n["nontrivial"] += 1
        m = j16(case)
        if m:
            st.bad(case, m)
            if len(st.viol) >= 2:
                raise Stop()
    st.sample(case)


def t_dropx(st, cases):
    for case in cases:
        st.n["states"] += 1
        st.n["transitions"] += len(case["rows"])
        st.n["traces"] += 1
        st.n["nontrivial"] += 1
        m = j16(case)
        if m:
            st.bad(case, m)
            if len(st.viol) >= 2:
                raise Stop()


def g16(tier, seed):
    q = tier == "quick"
    C = CELLS
    S = CELLS[:6]
    out = [(t_drop, (C, 1, 1, [], {})), (t_drop, (C, 2, 1, [], {})), (t_drop, (C, 1, 2, [], {}))]
    for x in C:
        out.append((t_drop, (C, 3, 1, [x], {})))
        out.append((t_drop, (C, 1, 3, [x], {})))
    for x in C:
        for y in C:
            out.append((t_drop, (C[:8] if q else C, 2, 2, [x, y], {})))
    if not q:
        for x in S:
            for y in S:
                out.append((t_drop, (S, 3, 2, [x, y], {})))
                out.append((t_drop, (S, 2, 3, [x, y], {})))
    T = [1.0, 0.0, -3.0, float("nan")]
    for idx in api.INDEXES:
        out.append((t_drop, (T, 3, 1, [], {"index": idx})))
        out.append((t_drop, (T[:3] if q else T, 2, 2, [], {"index": idx})))
    for ty in (["int64"], ["int64", "int64"], ["float32"], ["float64", "int64"]):
        out.append((t_drop, (T, 2, 2, [], {"types": ty})))
        out.append((t_drop, (T, 3, 1, [], {"types": ty})))
    cases = [dict(rows=[], k=k) for k in (1, 2)]
    for kind in ("str", "empty", "date", "bool", "num", "cat", "big", "small", "nint", "delta"):
        for n in (1, 2, 3):
            for holes in itertools.product((0, 1), repeat=n):
                for cells in itertools.product(T, repeat=n):
                    for fst in (0, 1):
                        cases.append(dict(rows=[[plain(x)] for x in cells], extra=[[kind, list(holes)]], first=fst))
    for a, b in itertools.product(("str", "date", "bool", "num", "cat", "big", "small", "nint", "delta"), repeat=2):
        for ha in itertools.product((0, 1), repeat=2):
            for hb in itertools.product((0, 1), repeat=2):
                cases.append(dict(rows=[["1.0"], ["2.0"]], extra=[[a, list(ha)], [b, list(hb)]]))
                cases.append(dict(rows=[["0.0"], ["2.0"]], extra=[[a, list(ha)], [b, list(hb)]]))
    for nm, idx, cells in itertools.product(("int", "odd", "multi"), ("range", "string", "dup", "multi"), itertools.product(T, repeat=4)):
        cases.append(dict(rows=[[plain(x) for x in cells[:2]], [plain(x) for x in cells[2:]]], cols=nm, index=idx,
                          extra=[] if cells[0] else [["str", [0, 1]]]))
    # long frames: one bad cell anywhere
    n = 40 if q else 200
    for i in range(0, n, 3 if q else 1):
        for x in C:
            rows = [[plain(1.0 + j), plain(2.0 + j), plain(-3.5 - j)] for j in range(n)]
            rows[i][i % 3] = plain(x)
            cases.append(dict(rows=rows))
    out += [(t_dropx, (x,)) for x in chunks(cases, 150)]
    return out
