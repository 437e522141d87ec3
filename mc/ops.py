"""C04: histories of calls.  A session is a sequence of operations in one process (construct an
indicator on some data, read lines, call the function form, run a wrapper); the value of every
operation is compared with the reference machine, which knows nothing of the session's past."""
import decimal
import gc
import itertools
import locale
import logging
import os
import random
import sys
import warnings

import api
import checks
import formula
import hist
import meta
import reg
import wrap
from engine import Stop
from meta import first_bad, vals

np, pd = api.np, api.pd

# two histories of the same length with the same first and last bar, the same sums, the same
# minimum and maximum: only the order of the bars inside differs
A0 = [(2, 2, 3, 1), (1, 4, 4, 3), (1, 2, 3, 2), (3, 3, 6, 0), (3, 6, 6, 3), (2, 3, 4, 1), (1, 1, 4, 2),
      (4, 5, 6, 5), (3, 6, 6, 2), (1, 3, 5, 4)]


def _bars(x):
    return [hist.bar(l, c, h, v) for l, c, h, v in x]


def _perm(xs, i, j):
    xs = list(xs)
    xs[i], xs[j] = xs[j], xs[i]
    return xs


DATA = {
    "A": _bars(A0),
    "B": _bars(_perm(_perm(A0, 2, 5), 4, 7)),
    "L": _bars(A0 + A0[3:8]),
    "D": hist.base("walk", 10),
}
_exp = {}


def expected(cname, pi, f, d):
    k = (cname, pi, f, d)
    if k not in _exp:
        c = reg.BYNAME[cname]
        _exp[k] = formula.expected(c, c.full(**params(c)[pi]), f, DATA[d])
    return _exp[k]


def params(c):
    g = [dict(x) for x in c.grid]
    return [g[min(1, len(g) - 1)], g[-1], formula.default(c)]


def environment():
    return (tuple(sorted(np.geterr().items())), pd.get_option("mode.chained_assignment"),
            pd.get_option("display.precision"), hash(np.random.get_state()[1].tobytes()), np.random.get_state()[2],
            random.getstate()[1][-1], len(warnings.filters), str(warnings.filters[:1]))


def deep():
    """everything of the process that a numeric library has no business changing"""
    o = pd._config.config._global_config if hasattr(pd, "_config") else {}
    return {"numpy": str(sorted(np.geterr().items())) + str(np.geterrcall()) + str(sorted(np.get_printoptions().items())),
            "pandas options": str(o), "warning filters": str(warnings.filters), "random": hash(random.getstate()),
            "numpy random": str(np.random.get_state()[1][:4]) + str(np.random.get_state()[2]), "locale": str(locale.setlocale(locale.LC_ALL)),
            "decimal": str(decimal.getcontext()), "environment": str(sorted(os.environ.items())), "directory": os.getcwd(),
            "path": str(sys.path), "recursion limit": sys.getrecursionlimit(), "logging": logging.root.level,
            "collector": gc.isenabled(), "trace": str(sys.gettrace()), "umask": oct(umask()),
            "warning display": str(warnings.showwarning) + str(warnings.formatwarning), "output": str((sys.stdout, sys.stderr))}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Session:
    """one process history"""

    def __init__(self):
        self.shared = {}          # class inputs -> Series objects that are mutated in place
        self.cur = {}
        self.inst = {}
        self.frame = {}
        self.env = environment()

    def data(self, c, d):
        if d != "S":
            return api.series(DATA[d], c.inputs), d
        # the same Series objects as last time, rewritten in place with the other history
        k = c.inputs
        if k not in self.shared:
            self.shared[k] = api.series(DATA["A"], k)
            self.cur[k] = "A"
        else:
            nd = "B" if self.cur[k] == "A" else "A"
            cols = api.columns(DATA[nd])
            for name in k:
                self.shared[k][name].iloc[:] = cols[name]
            self.cur[k] = nd
        return self.shared[k], self.cur[k]

    def do(self, op):
        kind = op[0]
        m = getattr(self, "do_" + kind)(*op[1:])
        if m:
            return m
        env = environment()
        if env != self.env:
            self.env = env
            return f"{op}: process-wide settings changed"
        return None

    def do_eval(self, cname, pi, f, d, form):
        """construct on data and read every line (class) or call every function"""
        c = reg.BYNAME[cname]
        p = c.full(**params(c)[pi])
        s, d = self.data(c, d)
        exp = expected(cname, pi, f, d)
        tag = f"{form}"
        if form == "class":
            api.CALLS += 1
            inst = api.make(c, p, f, s)
            return formula.diff(c, p, exp, [getattr(inst, o.method)() for o in c.outs], DATA[d], None, tag)
        for o, e in zip(c.outs, exp):
            if o.func is None:
                continue
            fp = api.fparams(c, o, p)
            if any(v != o.fdef.get(k, c.params[k]) for k, v in p.items() if k not in fp):
                continue
            api.CALLS += 1
            m = formula.diff(formula._one(c, o), p, [e], [api.func(c, o)(**s, **fp, fillna=f)], DATA[d], None, tag)
            if m:
                return m
        return None

    def do_hostile(self, what, f, kind, i):
        """a call on data with missing, infinite or zero cells: it may raise, but leaves nothing behind"""
        bars = hist.deviate(DATA["L"], i, kind)
        a = deep()
        try:
            if what in reg.BYNAME:
                c = reg.BYNAME[what]
                p = c.full(**params(c)[0])
                s = api.series(bars, c.inputs)
                api.CALLS += 1
                inst = api.make(c, p, f, s)
                for o in c.outs:
                    getattr(inst, o.method)()
                for o in c.outs:
                    if o.func:
                        api.func(c, o)(**s, **api.fparams(c, o, p), fillna=f)
            elif what == "dropna":
                api.CALLS += 1
                api.ta.utils.dropna(wrap.frame(bars))
            else:
                wrap.callw(what, wrap.frame(bars), fillna=f)
        except Exception:  # noqa: BLE001
            pass
        b = deep()
        for k in a:
            if a[k] != b[k]:
                return f"process-wide settings changed ({k}): {a[k]!s:.80} became {b[k]!s:.80}"
        return None

    def do_churn(self, cname, pi, f, mode):
        """nothing between the calls: objects die and new ones take their place in memory, or are rewritten in place"""
        c = reg.BYNAME[cname]
        p = c.full(**params(c)[pi])
        cols = {d: api.columns(DATA[d]) for d in "AB"}
        word = ["AB"[i] for i in hist.debruijn(2, 3)] * 2
        got = []
        s = api.series(DATA["A"], c.inputs)
        for d in word:
            if mode == "inplace":
                for name in c.inputs:
                    s[name].iloc[:] = cols[d][name]
            else:
                s = None
                s = {k: pd.Series(cols[d][k]) for k in c.inputs}
            inst = api.make(c, p, f, s)
            got.append([np.array(getattr(inst, o.method)(), dtype="float64") for o in c.outs])
            inst = None
            api.CALLS += 1
        n = len(DATA["A"])
        for i, (d, g) in enumerate(zip(word, got)):
            if any(len(x) != n for x in g):
                continue
            m = formula.diff(c, p, expected(cname, pi, f, d), [pd.Series(x) for x in g], DATA[d], None, f"call {i + 1}")
            if m:
                return m
        return None

    def do_evalp(self, cname, p, f, d, form):
        """like eval, with the parameters spelled out"""
        c = reg.BYNAME[cname]
        p = c.full(**dict(p))
        k = (cname, str(sorted(p.items(), key=str)), f, d)
        if k not in _exp:
            _exp[k] = formula.expected(c, p, f, DATA[d])
        exp, s = _exp[k], api.series(DATA[d], c.inputs)
        api.CALLS += 1
        if form == "class":
            inst = api.make(c, p, f, s)
            return formula.diff(c, p, exp, [getattr(inst, o.method)() for o in c.outs], DATA[d], None, form)
        for o, e in zip(c.outs, exp):
            if o.func is None:
                continue
            fp = api.fparams(c, o, p)
            if any(v != o.fdef.get(k, c.params[k]) for k, v in p.items() if k not in fp):
                continue
            m = formula.diff(formula._one(c, o), p, [e], [api.func(c, o)(**s, **fp, fillna=f)], DATA[d], None, form)
            if m:
                return m
        return None

    def do_new(self, slot, cname, pi, f, d):
        c = reg.BYNAME[cname]
        s = api.series(DATA[d], c.inputs)
        api.CALLS += 1
        self.inst[slot] = (c, pi, f, d, api.make(c, c.full(**params(c)[pi]), f, s))

    def do_read(self, slot, li):
        c, pi, f, d, inst = self.inst[slot]
        o = c.outs[li]
        api.CALLS += 1
        g = getattr(inst, o.method)()
        return formula.diff(formula._one(c, o), c.full(**params(c)[pi]), [expected(c.name, pi, f, d)[li]], [g],
                            DATA[d], None, f"instance {slot}")

    def do_wrap(self, fn, f, v, d):
        bars = DATA[d]
        df = wrap.frame(bars)
        kw = dict(fillna=f, colprefix="")
        if fn != "add_others_ta":
            kw["vectorized"] = v
        out = wrap.callw(fn, df, **kw)
        for r in wrap.columns(fn, v):
            c = reg.BYNAME[r[1]]
            p = c.full(**r[2])
            k = (r[1], str(r[2]), f, d)
            if k not in _exp:
                _exp[k] = formula.expected(c, p, f, bars)
            li = [o.method for o in c.outs].index(r[3])
            m = formula.diff(formula._one(c, c.outs[li]), p, [_exp[k][li]], [out[r[0]]], bars, None,
                             f"{fn} column {r[0]}")
            if m:
                return m
        return None

    def do_dropna(self, d):
        df = wrap.frame(DATA[d])
        api.CALLS += 1
        out = api.ta.utils.dropna(df)
        exp = [i for i, b in enumerate(DATA[d]) if all(x != 0 for x in b)]
        if list(out.index) != exp:
            return f"dropna kept rows {list(out.index)}, expected {exp}"
        return None


    def do_dropf(self, k):
        return wrap.j16(FRAMES[k])


# frames with the same column names and shape but other cell types, zeros and holes
FRAMES = [dict(rows=r, types=t, extra=[x], index=i) for r, t, x, i in (
    ([["1.0", "2.0"], ["0.0", "3.0"], ["4.0", "nan"]], (), ("str", (False, False, True)), "range"),
    ([["1.0", "2.0"], ["3.0", "0.0"], ["4.0", "5.0"]], ("int64", "int64"), ("num", (False, False, True)), "range"),
    ([["1.0", "nan"], ["3.0", "2.0"], ["inf", "5.0"]], (), ("bool", (False, True, True)), "datetime"),
    ([["1.0", "7.0"], ["3.0", "2.0"], ["6.0", "5.0"]], ("float32", "int64"), ("date", (True, False, False)), "string"),
    ([["0.0", "7.0"], ["3.0", "2.0"], ["6.0", "5.0"]], ("int64", "float32"), ("cat", (False, False, False)), "dup"),
    ([["2.0", "7.0"], ["3.0", "2.0"], ["6.0", "5.0"]], (), ("num", (True, False, False)), "datetime"))]


def judge(case):
    s = Session()
    for i, op in enumerate(case["ops"]):
        try:
            m = s.do(op)
        except Exception as ex:  # noqa: BLE001
            m = f"raised {type(ex).__name__}: {ex}"
        if m:
            return f"operation {i + 1} of the session, {list(op)}: {m}"
    return None


def t_session(st, ops, seq, pre, label):
    """run a whole session; report the shortest prefix that fails"""
    s = Session()
    done = []
    for op in pre + [ops[i] for i in seq]:
        done.append(op)
        c0 = api.CALLS
        try:
            m = s.do(op)
        except Exception as ex:  # noqa: BLE001
            m = f"raised {type(ex).__name__}: {ex}"
        st.n["transitions"] += 1
        st.n["traces"] += api.CALLS - c0
        st.n["evaluations"] += api.CALLS - c0
        if m:
            st.bad({"ops": done}, f"operation {len(done)} of the session, {list(op)}: {m}")
            raise Stop()
    st.n["states"] += len(set(zip(seq, seq[1:])))
    st.n["nontrivial"] += len(seq)
    st.n["sessions"] += 1
    st.sample({"session over": label, "operations": len(seq), "first": [list(x) for x in done[:4]]})


def db(k, n, cap=None):
    return hist.debruijn(k, n)


HOSTILE = ("nan", "nanc", "infc", "infv", "zero", "neginf")


def g04(tier, seed):
    q = tier == "quick"
    out = []
    for c in reg.CLASSES:
        # every ordered pair (thorough: triple) of evaluations of one class
        ops = [("eval", c.name, pi, f, d, form) for pi in (0, 1) for f in (False, True) for d in ("A", "B", "S", "L")
               for form in ("class", "func")]
        out.append((t_session, (ops, db(len(ops), 2), [], c.name + " pairs")))
        ops2 = [("eval", c.name, pi, f, d, form) for pi in (0, 1) for f in (False, True) for d in ("A", "S")
                for form in ("class", "func")]
        ops3 = [("eval", c.name, pi, f, d, "class") for pi in (0, 2) for f in (False, True) for d in ("D", "B", "S")]
        if q:
            small = ops2[:8:2] + ops2[8::3]
            out.append((t_session, (small, db(len(small), 3), [], c.name + " triples")))
        else:
            out.append((t_session, (ops2, db(len(ops2), 3), [], c.name + " triples")))
            out.append((t_session, (ops3, db(len(ops3), 3), [], c.name + " triples")))
        # every ordered pair of parameter values: each whole-number parameter swept, then mixed sets
        ints = [k for k, v in formula.default(c).items() if isinstance(v, int) and not isinstance(v, bool)]
        small = c.full(**dict(c.grid[min(1, len(c.grid) - 1)]))
        for k in ints[:2] if q else ints:
            ps = [{**small, k: w} for w in range(1, 20 if q else 34)]
            ps = [p for p in ps if formula.ok_params(c, p)]
            ops = [("evalp", c.name, p, False, "L", "class") for p in ps]
            out.append((t_session, (ops, db(len(ops), 2), [], f"{c.name} {k} values")))
        cb = formula.combos(c, tier)
        cb = cb[::max(1, len(cb) // (14 if q else 30))]
        ops = [("evalp", c.name, p, bool(i % 2), "AL"[i // 2 % 2], "class" if i % 3 else "func") for i, p in enumerate(cb)]
        if len(ops) > 1:
            out.append((t_session, (ops, db(len(ops), 2), [], c.name + " parameter sets")))
        # calls on broken data in between
        ops = [("hostile", c.name, f, k, 1 + 2 * i) for f in (False, True) for i, k in enumerate(HOSTILE)]
        ops += [("eval", c.name, 0, False, "A", "class"), ("eval", c.name, 0, True, "S", "func")]
        out.append((t_session, (ops, db(len(ops), 2), [], c.name + " broken data")))
        ops = [("churn", c.name, pi, f, mode) for pi in (0, 1) for f in (False, True) for mode in ("fresh", "inplace")]
        out.append((t_session, (ops, db(len(ops), 2), [], c.name + " without pause")))
        # two live instances, all interleavings of reads
        m = len(c.outs)
        for (pa, fa, da), (pb, fb, dbb) in [((0, False, "A"), (1, False, "B")), ((0, True, "A"), (0, False, "A")),
                                            ((0, False, "A"), (0, False, "B")), ((1, True, "L"), (1, True, "A"))]:
            pre = [("new", "X", c.name, pa, fa, da), ("new", "Y", c.name, pb, fb, dbb)]
            rd = [("read", s, i) for s in "XY" for i in range(m)]
            k = 3 if (m <= 3 or not q) else 2
            out.append((t_session, (rd, db(len(rd), k), pre, c.name + " two instances")))
    # every ordered pair of classes
    ops = [("eval", c.name, pi, f, d, "class") for i, c in enumerate(reg.CLASSES)
           for pi, f, d in ((0, False, "A"), (1, True, "B"))]
    if not q:
        ops += [("eval", c.name, 2, False, "D", "func") for c in reg.CLASSES]
    seq = db(len(ops), 2)
    k = 900
    for i in range(0, len(seq), k):
        out.append((t_session, (ops, seq[i:i + k + 1], [], "pairs of classes")))
    # wrappers among each other and with single indicators
    ops = [("wrap", fn, f, v, d) for fn in wrap.GROUPS for f, v, d in
           ((False, False, "A"), (True, True, "B"), (False, True, "S" if False else "L"), (True, False, "A"))]
    dr = [("dropf", k) for k in range(len(FRAMES))] + [("dropna", "A"), ("dropna", "L")]
    out.append((t_session, (dr, db(len(dr), 3 if q else 4), [], "cleaning of frames")))
    bad = [("hostile", fn, f, k, 3) for fn in wrap.ALL[:-1] + ["dropna"] for f in (False, True) for k in HOSTILE]
    good = [("wrap", fn, True, False, "A") for fn in wrap.GROUPS] + [("dropna", "A")]
    for i in range(0, len(bad), 6):
        out.append((t_session, ([y for x in bad[i:i + 6] for y in (x, good[i // 12])], list(range(len(bad[i:i + 6]) * 2)), [], "wrappers on broken data")))
    ops += [("dropna", "A"), ("dropf", 0), ("wrap", "add_all_ta_features", False, False, "B")]
    seq = db(len(ops), 2)
    for i in range(0, len(seq), 60):
        out.append((t_session, (ops, seq[i:i + 61], [], "wrappers")))
    ops = [("wrap", "add_momentum_ta", False, False, "A"), ("wrap", "add_trend_ta", True, False, "B"),
           ("wrap", "add_volatility_ta", False, True, "A"), ("wrap", "add_volume_ta", False, False, "B")] + \
          [("eval", c.name, 2, bool(i % 2), "AB"[i // 2 % 2], "class") for i, c in enumerate(reg.CLASSES)]
    seq = [x for i in range(4) for j in range(4, len(ops)) for x in (i, j)]
    for i in range(0, len(seq), 24):
        out.append((t_session, (ops, seq[i:i + 25], [], "wrapper then indicator")))
    return out
