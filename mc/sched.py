"""C05: thread schedules.  Two threads run real library calls; a cooperative scheduler driven by the
interpreter's trace events decides before every executed line of `ta` (grain "op": also before every
bytecode instruction that calls, computes, stores or indexes) which thread runs next.  All
schedules with at most `bound` preemptions are executed, each from fresh inputs; every value is
compared with the reference machine."""
import dis
import json
import os
import sys
import threading

import api
import formula
import ops
import reg
import wrap
from engine import Stop

np, pd = api.np, api.pd
TADIR = os.path.join(os.path.realpath(api.ROOT), "ta") + os.sep
_isin = {}


def ours(fn):
    r = _isin.get(fn)
    if r is None:
        r = _isin[fn] = os.path.realpath(fn).startswith(TADIR)
    return r


# instructions of one line between which another thread may matter; moves of local references commute
OPS = {v for k, v in dis.opmap.items() if k.startswith(("CALL", "BINARY", "STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "COMPARE",
                                                         "CONTAINS", "UNARY", "DELETE", "STORE_SLICE", "STORE_NAME"))}


class Run:
    """execute the bodies under one schedule: plan = [(thread, lines), ...] then run to the end"""

    def __init__(self, bodies, plan, grain="line"):
        self.grain = grain
        self.bodies = bodies
        self.plan = list(plan)
        self.n = len(bodies)
        self.steps = [0] * self.n
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True] * self.n
        self.result = [None] * self.n
        self.switches = 0
        self.left = -1
        self.done = threading.Semaphore(0)

    def execute(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        first = self.plan.pop(0) if self.plan else (0, -1)
        self.left = first[1]
        self.go[first[0]].release()
        for _ in ts:
            if not self.done.acquire(timeout=60):
                raise RuntimeError("schedule did not finish")
        for t in ts:
            t.join(10)
        return self.result

    def body(self, i):
        self.go[i].acquire()
        sys.settrace(lambda fr, ev, arg: self.local(i, fr) if ours(fr.f_code.co_filename) else None)
        try:
            self.result[i] = ("ok", self.bodies[i]())
        except Exception as ex:  # noqa: BLE001
            self.result[i] = ("error", f"{type(ex).__name__}: {ex}")
        finally:
            sys.settrace(None)
        self.alive[i] = False
        self.done.release()
        self.next(i)

    def local(self, i, frame):
        if self.grain == "op":
            frame.f_trace_opcodes = True

        def tr(fr, ev, arg):
            if self.grain == "utils" and not frame.f_code.co_filename.endswith("utils.py"):
                return None
            if self.grain == "wrap" and not frame.f_code.co_filename.endswith("wrapper.py"):
                return None
            if self.grain == "outer" and (not frame.f_code.co_filename.endswith("wrapper.py") or frame.f_back.f_code.co_filename.endswith("wrapper.py")):
                return None
            if ev == "line" or ev == "opcode" and fr.f_code.co_code[fr.f_lasti] in OPS:
                self.point(i)
            return tr
        return tr

    def point(self, i):
        self.steps[i] += 1
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        j = self.next(i)
        if j is not None and j != i:
            self.switches += 1
            self.go[i].acquire()

    def next(self, i):
        """hand the processor over: to the next planned thread, else to any other live one"""
        while self.plan:
            j, k = self.plan.pop(0)
            if self.alive[j]:
                self.left = k
                if j != i or not self.alive[i]:
                    self.go[j].release()
                return j
        self.left = -1
        for j in [x for x in range(self.n) if x != i] + [i]:
            if self.alive[j]:
                if j != i:
                    self.go[j].release()
                return j
        return None


SMALL = {"A": [ops.DATA["A"][i] for i in (0, 1, 4, 6)], "B": [ops.DATA["A"][i] for i in (0, 6, 1, 4)],
         "Z": [ops.DATA["A"][i] for i in (0, 3, 4, 3)],   # zero volumes
         "C": [ops.DATA["A"][i] for i in (7, 2, 5)],
         # long enough for the second small grid point of every class to leave its warm-up
         "L": [ops.DATA["A"][i % len(ops.DATA["A"])] for i in (0, 3, 6, 1, 4, 7, 2, 5, 1, 0, 6, 4, 3, 2)],
         "M": [ops.DATA["A"][i % len(ops.DATA["A"])] for i in (5, 2, 1, 7, 0, 4, 6, 3, 3, 2, 0, 5, 7, 1)]}


def grid(c):
    g = [dict(x) for x in c.grid]
    return [g[min(1, len(g) - 1)], g[0]]


class Body:
    """one thread's call and the check of its result"""

    def __init__(self, spec, shared=None):
        self.spec = spec
        kind = spec[0]
        if kind in ("class", "func", "inst"):
            _, cname, pi, f, d = spec
            self.c = reg.BYNAME[cname]
            self.p = self.c.full(**grid(self.c)[pi])
            self.s = shared if shared is not None else api.series(SMALL[d], self.c.inputs)
        elif kind == "wrap":
            self.df = wrap.frame(SMALL[spec[4]])
        elif kind == "dropna":
            self.df = shared if shared is not None else wrap.frame(SMALL[spec[1]])

    def __call__(self):
        k = self.spec[0]
        if k == "class":
            i = api.make(self.c, self.p, self.spec[3], self.s)
            return [getattr(i, o.method)() for o in self.c.outs]
        if k == "inst":      # both threads read the lines of one indicator object
            return [getattr(self.s, o.method)() for o in self.c.outs]
        if k == "func":
            return [api.func(self.c, o)(**self.s, **api.fparams(self.c, o, self.p), fillna=self.spec[3])
                    if o.func else None for o in self.c.outs]
        if k == "wrap":
            _, fn, f, v, d = self.spec[:5]
            kw = dict(fillna=f)
            if len(self.spec) > 5:
                kw["colprefix"] = self.spec[5]
            if fn != "add_others_ta":
                kw["vectorized"] = v
            return wrap.callw(fn, self.df, **kw)
        return api.ta.utils.dropna(self.df)

    def check(self, res):
        kind, val = res
        if kind == "error":
            return f"{list(self.spec)} raised {val}"
        k = self.spec[0]
        if k in ("class", "func", "inst"):
            _, cname, pi, f, d = self.spec
            exp = expect(cname, pi, f, d)
            c, p = self.c, self.p
            for o, e, g in zip(c.outs, exp, val):
                if g is None:
                    continue
                if k == "func":
                    fp = api.fparams(c, o, p)
                    if any(v != o.fdef.get(x, c.params[x]) for x, v in p.items() if x not in fp):
                        continue
                m = formula.diff(formula._one(c, o), p, [e], [g], SMALL[d], None, k)
                if m:
                    return m
            return None
        if k == "wrap":
            _, fn, f, v, d = self.spec[:5]
            pre = self.spec[5] if len(self.spec) > 5 else ""
            want = {pre + r[0] for r in wrap.columns(fn, v)}
            if set(val.columns) - set(wrap.frame(SMALL[d]).columns) != want:
                return f"{fn}: columns {sorted(set(val.columns) ^ want)[:8]} differ"
            for r in wrap.columns(fn, v):
                c = reg.BYNAME[r[1]]
                key = (r[1], str(r[2]), f, d)
                if key not in _memo:
                    _memo[key] = formula.expected(c, c.full(**r[2]), f, SMALL[d])
                li = [o.method for o in c.outs].index(r[3])
                m = formula.diff(formula._one(c, c.outs[li]), c.full(**r[2]), [_memo[key][li]], [val[pre + r[0]]], SMALL[d],
                                 None, f"{fn} column {r[0]}")
                if m:
                    return m
            return None
        exp = [i for i, b in enumerate(SMALL[self.spec[1]]) if all(x != 0 for x in b)]
        return None if list(val.index) == exp else f"dropna kept {list(val.index)}, expected {exp}"


_memo = {}


def expect(cname, pi, f, d):
    k = (cname, pi, f, d)
    if k not in _memo:
        c = reg.BYNAME[cname]
        _memo[k] = formula.expected(c, c.full(**grid(c)[pi]), f, SMALL[d])
    return _memo[k]


def once(specs, plan, shared, grain="line"):
    sh = None
    if shared:
        if specs[0][0] == "inst":
            _, cname, pi, f, d = specs[0]
            c = reg.BYNAME[cname]
            sh = api.make(c, c.full(**grid(c)[pi]), f, api.series(SMALL[d], c.inputs))
        elif specs[0][0] in ("class", "func"):
            sh = api.series(SMALL[specs[0][4]], reg.BYNAME[specs[0][1]].inputs)
        else:
            sh = wrap.frame(SMALL[specs[0][1]])
    bodies = [Body(tuple(s), sh) for s in specs]
    env = ops.deep()
    r = Run(bodies, plan, grain)
    res = r.execute()
    api.CALLS += len(bodies)
    now = ops.deep()
    for b, x in zip(bodies, res):
        m = b.check(x)
        if m:
            return f"threads {[list(s) for s in specs]}, schedule {plan}: {m}", r
    for k in env:
        if env[k] != now[k]:
            return (f"threads {[list(s) for s in specs]}, schedule {plan}: process-wide settings changed ({k}): "
                    f"{env[k]!s:.80} became {now[k]!s:.80}"), r
    return None, r


def after(specs):
    """what the race left behind: later calls of one thread, with more history and larger windows"""
    for cname in dict.fromkeys(s[1] for s in specs if s[0] in ("class", "func", "inst")):
        c = reg.BYNAME[cname]
        p = c.full(**c.grid[-1])
        rows = ops.DATA["A"]
        for f in (False, True):
            k = (cname, "after", f)
            if k not in _memo:
                _memo[k] = formula.expected(c, p, f, rows)
            try:
                i = api.make(c, p, f, api.series(rows, c.inputs))
                got = [getattr(i, o.method)() for o in c.outs]
            except Exception as ex:  # noqa: BLE001
                return f"later {cname} {dict(p)}: raised {type(ex).__name__}: {ex}"
            api.CALLS += 1
            for o, e, g in zip(c.outs, _memo[k], got):
                m = formula.diff(formula._one(c, o), p, [e], [g], rows, None, "later, one thread")
                if m:
                    return m
    return None


def judge(case):
    specs = [tuple(s) for s in case["threads"]]
    m = once([tuple(s) for s in case["threads"]], [tuple(x) for x in case["plan"]], case.get("shared", False), case.get("grain", "line"))[0]
    return m or after(specs)


def plans(n0, n1, bound, part=(0, 1)):
    """all schedules of two threads with at most `bound` preemptions (bound -2: exactly two, thread 0 first)"""
    if bound == -2:
        for i in range(1 + part[0], n0 + 1, part[1]):
            for j in range(1, n1 + 1):
                yield [(0, i), (1, j), (0, -1)]
        return
    yield [(0, -1)]
    yield [(1, -1)]
    for a, b, n, m in ((0, 1, n0, n1), (1, 0, n1, n0)):
        for i in range(1, n + 1):
            if i % part[1] != part[0]:
                continue
            yield [(a, i), (b, -1)]
            if bound >= 2:
                for j in range(1, m + 1):
                    yield [(a, i), (b, j), (a, -1)]


def t_pair(st, specs, shared, bound, part, grain="line"):
    # thread 1 first, then thread 0, then the first plan twice: lazily built state of the process is warm,
    # and the second execution must take the very same steps
    once(specs, [(1, -1)], shared, grain)
    m, r = once(specs, [(0, -1)], shared, grain)
    n0, n1 = r.steps
    m2, r2 = once(specs, [(0, -1)], shared, grain)
    if r2.steps != r.steps:
        st.n["steps_differ_between_runs"] += 1
        n0, n1 = max(n0, r2.steps[0]), max(n1, r2.steps[1])
    m = m or m2
    if m:
        st.bad(dict(threads=[list(s) for s in specs], plan=[(0, -1)], shared=shared, grain=grain), m)
        raise Stop()
    for plan in plans(n0, n1, bound, part):
        m, r = once(specs, plan, shared, grain)
        st.n["schedules"] += 1
        st.n["schedules_" + grain] += 1
        st.n["states"] += sum(r.steps)
        st.n["transitions"] += sum(r.steps)
        st.n["traces"] += 1
        st.n["evaluations"] += 2
        st.n["preemptions"] += r.switches
        if r.switches:
            st.n["nontrivial"] += 1
        if m:
            st.bad(dict(threads=[list(s) for s in specs], plan=plan, shared=shared, grain=grain), m)
            raise Stop()
    m = after(specs)
    if m:
        st.bad(dict(threads=[list(s) for s in specs], plan=plan, shared=shared, grain=grain), m)
        raise Stop()
    st.sample({"threads": [list(s) for s in specs], "points of each thread": [n0, n1], "grain": grain, "same input objects": shared,
               "last schedule": plan})


def forked(fn):
    """run fn in a child of this process and hand back its JSON-able result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(fn(), default=str).encode()
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(out)


def t_fresh(st, specs, shared, grain="line", part=(0, 1)):
    """every schedule from a process in which the library has not been used yet (races of first use)"""
    def child(plan):
        m, r = once(specs, plan, shared, grain)
        m = m or after(specs)
        return [m, r.steps, r.switches]

    _, steps, _ = forked(lambda: child([(0, -1)]))
    for plan in plans(steps[0], steps[1] * 2, 1, part):
        m, steps, sw = forked(lambda: child(plan))
        st.n["schedules"] += 1
        st.n["schedules_fresh_process"] += 1
        st.n["later_calls"] += 2
        st.n["states"] += sum(steps)
        st.n["transitions"] += sum(steps)
        st.n["traces"] += 1
        st.n["evaluations"] += 2
        st.n["preemptions"] += sw
        if sw:
            st.n["nontrivial"] += 1
        elif plan[0][1] > 0 and sum(steps):
            if plan[0][0] == 1 and plan[0][1] > steps[1]:
                break
        if m:
            st.bad(dict(threads=[list(s) for s in specs], plan=plan, shared=shared, grain=grain), m)
            raise Stop()


# classes with few lines: every pair of preemption points in the quick check
TWO = {"ROCIndicator", "AwesomeOscillatorIndicator", "WilliamsRIndicator", "EMAIndicator", "SMAIndicator", "TRIXIndicator", "MassIndex",
       "DPOIndicator", "UlcerIndex", "AccDistIndexIndicator", "OnBalanceVolumeIndicator", "ChaikinMoneyFlowIndicator",
       "ForceIndexIndicator", "EaseOfMovementIndicator", "VolumePriceTrendIndicator", "VolumeWeightedAveragePrice", "DailyReturnIndicator",
       "DailyLogReturnIndicator", "CumulativeReturnIndicator", "RSIIndicator", "TSIIndicator", "CCIIndicator", "WMAIndicator",
       "NegativeVolumeIndexIndicator"}


def g05(tier, seed):
    q = tier == "quick"
    out = []
    names = [c.name for c in reg.CLASSES]
    for i, c in enumerate(reg.CLASSES):
        pairs = [([("class", c.name, 0, False, "A"), ("class", c.name, 0, False, "B")], False),
                 ([("class", c.name, 0, True, "A"), ("class", c.name, 1, False, "A")], True)]
        other = names[(i + 7) % len(names)]
        pairs.append(([("class", c.name, 0, False, "A"), ("class", other, 0, True, "B")], False))
        pairs.append(([("func", c.name, 0, False, "A"), ("class", c.name, 1, True, "C")], False))
        one = [("inst", c.name, 0, False, "A"), ("inst", c.name, 0, False, "A")]
        for f in (False, True):
            s2 = [("inst", c.name, 0, f, "L")] * 2
            out.append((t_pair, (s2, True, 1, (0, 1), "line" if q else "op")))
        out.append((t_fresh, (one, True)))
        big = [("class", c.name, 1, False, "L"), ("class", c.name, 1, True, "M")]
        if c.name != "PSARIndicator" or not q:
            out.append((t_pair, (big, False, 1, (0, 1))))
        if q:
            # both threads fill, two preemptions: each is stopped once inside its own call
            two = [("class", c.name, 0, True, "Z"), ("class", c.name, 0, True, "B")]
            small = c.name in TWO
            for k in range(2):
                out.append((t_pair, (two, False, -2, (k, 2), "line" if small else "utils")))
            pairs = pairs[:2] + pairs[2 + i % 2:3 + i % 2]
        for specs, sh in pairs:
            if specs is pairs[0][0] or specs is pairs[1][0] or not q:
                out.append((t_fresh, (specs, sh)))
            if q:
                out.append((t_pair, (specs, sh, 1, (0, 1))))
                if specs is pairs[0][0]:
                    for k in range(2):
                        out.append((t_pair, (specs, sh, 1, (k, 2), "op")))
            else:
                for k in range(4):
                    out.append((t_pair, (specs, sh, 1, (k, 4), "op")))
                for k in range(8):
                    out.append((t_pair, (specs, sh, 2, (k, 8))))
    W = [([("wrap", "add_others_ta", False, False, "A"), ("wrap", "add_others_ta", True, False, "B")], False),
         ([("dropna", "A"), ("dropna", "B")], False), ([("dropna", "A"), ("dropna", "A")], True),
         ([("wrap", "add_volume_ta", False, True, "A"), ("wrap", "add_volume_ta", True, True, "B")], False)]
    for fn in wrap.ALL:
        for v in (False, True):
            if v and fn == "add_others_ta":
                continue
            specs = [("wrap", fn, False, v, "A"), ("wrap", fn, True, v, "B", "p_")]
            for k in range(16):
                out.append((t_pair, (specs, False, 1, (k, 16), "outer" if q and fn == wrap.ALL[-1] else "wrap")))
    if not q:
        W += [([("wrap", fn, False, False, "A"), ("wrap", fn, True, False, "B")], False) for fn in wrap.GROUPS]
        W += [([("wrap", "add_momentum_ta", False, False, "A"), ("wrap", "add_trend_ta", False, False, "B")], False)]
    for specs, sh in W:
        for k in range(16):
            out.append((t_pair, (specs, sh, 1, (k, 16))))
    return out
