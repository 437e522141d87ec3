"""Shared machinery of the relational checks: which histories are visited, how results of the real
code are read, and how two results are compared."""
import itertools
import math

import api
import formula
import hist
import reg
from engine import Stop

np, pd = api.np, api.pd
NAN = float("nan")
RTOL = formula.RTOL
LINE = {(c.name, o.method): (c, o) for c in reg.CLASSES for o in c.outs}


# --------------------------------------------------------------------------------- running code
def vals(g):
    if g.dtype == object:
        return g.to_numpy(dtype="float64", na_value=NAN)
    return g.to_numpy(dtype="float64")


def run(c, p, f, bars, index="range", dtype="float64"):
    """all published lines as Series; results that drop rows are put back on their labels"""
    api.CALLS += 1
    s = api.series(bars, c.inputs, index, dtype)
    inst = api.make(c, p, f, s)
    out = []
    for o in c.outs:
        g = getattr(inst, o.method)()
        if p.get("dropnans"):
            g = g.reindex(s[c.inputs[0]].index)
        out.append(g)
    return out


def runv(c, p, f, bars, index="range", dtype="float64"):
    return [vals(g) for g in run(c, p, f, bars, index, dtype)]


def callf(c, o, p, f, bars, positional=False, **kw):
    api.CALLS += 1
    s = api.series(bars, c.inputs, **kw)
    return api.func(c, o)(**s, **api.fparams(c, o, p), fillna=f)


def first_bad(a, b, at, skip=None):
    """index of the first row where the two arrays differ, or -1"""
    if len(a) != len(b):
        return min(len(a), len(b))
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= at + RTOL * np.abs(a))
    if skip is not None:
        ok = ok | skip
    return -1 if ok.all() else int(np.argmin(ok))


def dontcare(c, p, f, bars, exact=None):
    """per line: rows where the published definition is ill-conditioned (only rounding decides)"""
    import model
    exp = model.run(c, p, f, bars, hist.is_exact(bars) if exact is None else exact,
                    hist.pscale(bars))
    n = len(bars)
    out = []
    for col in exp:
        col = list(col) + [0.0] * (n - len(col)) if len(col) < n else col
        out.append(np.array([x is None for x in col[:n]], dtype=bool))
    if p.get("dropnans"):
        out = [np.zeros(n, dtype=bool) for _ in out]
    return out


def raised(c, p, f, n, ex):
    return f"{c.name} params={dict(p)} fillna={f} n={n}: raised {type(ex).__name__}: {ex}"


# ------------------------------------------------------------------------------ history families
def alpha(c, kind):
    a = formula.alphabets(c)
    if kind == "narrow":
        return a[0]
    if kind == "wide":
        return a[1]
    if kind == "mid":
        return a[1][:6]
    if kind == "gaps":
        return a[0] + [hist.MISSING]
    raise KeyError(kind)


def gens(c, fam):
    """descriptor -> JSON-able history cases"""
    k = fam[0]
    if k == "tree":
        _, kind, prefix, lo, hi = fam
        al = alpha(c, kind)
        pre = [al[i] for i in prefix]
        for n in range(max(lo, len(pre)), hi + 1):
            for w in itertools.product(al, repeat=n - len(pre)):
                if n:
                    yield {"bars": pre + list(w)}
    elif k == "path":
        kind, n = fam[1:3]
        al = alpha(c, kind)
        case = {"seq": [len(al), n, al]}
        if len(fam) > 3:
            case["unit"] = list(fam[3])
        yield case
    elif k == "base":
        yield {"base": fam[1], "n": fam[2]}
    elif k == "dev":
        _, b, n, devs, pos = fam
        for i, d in itertools.product(pos, devs):
            if i < n:
                yield {"base": b, "n": n, "dev": [[i, d]]}
    elif k == "dev2":
        _, b, n, devs, pos = fam
        for (i, j) in itertools.combinations(pos, 2):
            for d, e in itertools.product(devs, devs):
                if j < n:
                    yield {"base": b, "n": n, "dev": [[i, d], [j, e]]}
    elif k == "prefix":
        for n in range(fam[2], fam[3] + 1):
            yield {"base": fam[1], "n": n}
    else:
        raise KeyError(fam)


def t_cases(st, judge, cname, plist, fills, fam, extra, nbars):
    c = reg.BYNAME[cname]
    for gen in gens(c, fam):
        for p in plist:
            for f in fills:
                case = dict(cls=cname, p=p, fillna=f, **gen, **extra)
                c0 = api.CALLS
                m = judge(case)
                n = nbars if nbars else len(gen.get("bars", ())) or gen.get("n") or 1
                st.n["states"] += 1 if fam[0] == "tree" else n
                st.n["transitions"] += (api.CALLS - c0) * n
                st.n["evaluations"] += api.CALLS - c0
                st.n["traces"] += api.CALLS - c0
                st.n["cases"] += 1
                if n > 1:
                    st.n["nontrivial"] += 1
                if m:
                    st.bad(case, m)
                    if len(st.viol) >= 2:
                        raise Stop()
    st.sample({"class": cname, "params": [dict(x) for x in plist[:2]], "fillna": list(fills),
               "history": {k: v for k, v in gen.items()}})


def params_of(c, tier, what):
    d = formula.default(c)
    if what == "grid":
        return [dict(x) for x in c.grid]
    if what == "default":
        return [d]
    m = formula.mid_params(c, tier)
    if what == "mids":
        return m
    if what == "somemids":
        return m[::5]
    if what == "combos":
        return formula.combos(c, tier)
    raise KeyError(what)


def spread(judge, tier, classes=None, fills=(False, True), tree=None, tree_kind="narrow",
           path=3, widepath=2, bases=hist.BASES + tuple(hist.SHIFTED), devbases=("walk",), devs=None, step=None,
           prefix=False, mids=True, combos=True, long=None, extra=None, keep=None, treegrid=None, filt=None):
    """the usual mixture of history families for a relational check, as engine tasks"""
    q = tier == "quick"
    extra = extra or {}
    out = []
    for c in (reg.CLASSES if classes is None else [reg.BYNAME[x] for x in classes]):
        if keep and not keep(c):
            continue
        d = formula.default(c)
        grid = params_of(c, tier, "grid")
        if treegrid:
            grid = grid[:treegrid]
        if filt:
            grid = [p for p in grid if filt(c, c.full(**p))]
        depth = tree if tree is not None else (4 if q else 6)
        slow = c.name in formula.SLOW
        if slow:
            depth -= 1
        nar = len(alpha(c, tree_kind))
        n = formula.warm(c, d) + (25 if q else 40)

        def add(plist, fam, nb=None, fl=fills):
            if filt:
                plist = [p for p in plist if filt(c, c.full(**p))]
            if plist:
                out.append((t_cases, (judge, c.name, plist, fl, fam, extra, nb)))
        if depth > 0:
            add(grid, ("tree", tree_kind, [], 1, min(1, depth)))
            if depth > 1:
                for i in range(nar):
                    if depth >= 5:
                        for j in range(nar):
                            add(grid, ("tree", tree_kind, [i, j], 2, depth))
                    else:
                        add(grid, ("tree", tree_kind, [i], 2, depth))
        allp = grid + [d]
        midp = params_of(c, tier, "mids")
        if path:
            add(allp, ("path", tree_kind, path if q else path + 1), nar ** (path if q else path + 1))
        if widepath:
            k = len(alpha(c, "wide"))
            add(allp + midp[::4 if q else 1], ("path", "wide", widepath), k ** widepath)
        for b in bases:
            if not formula.fits(c, b):
                continue
            add([d], ("base", b, n), n)
            if mids and b in (("walk", "spike") if q else hist.BASES):
                for ch in range(0, len(midp), 6):
                    add(midp[ch:ch + 6], ("base", b, min(150, n + 40)), min(150, n + 40))
        if combos:
            cb = params_of(c, tier, "combos")
            for ch in range(0, len(cb), 16):
                add(cb[ch:ch + 16], ("base", "walk", 40), 40)
                add(cb[ch:ch + 16], ("path", tree_kind, 2 if q else 3), nar ** 2)
        st = step or (5 if q else 1)
        for bi, b in enumerate(devbases if q else hist.BASES):
            for dv in devs or formula.relevant_devs(c):
                add([d], ("dev", b, n, [dv], list(range(bi % st, n, st))), n)
        if prefix:
            add([d], ("prefix", "walk", 1, n))
        if long:
            add([d], ("base", "walk", long), long)
    return out
