"""Reference models: one small state machine per indicator class.

Each machine is fed one bar at a time (it cannot see the future, and it only keeps the state the
published definition needs) and answers the raw value of every published line at that bar.
`NAN` is "not defined yet / undefined at this bar"; `ANY` (None) is "do not care": the value is
ill-conditioned at this bar (a tie or a zero denominator that only rounding decides), so nothing
is claimed about it.  `finish` applies the documented gap filling afterwards.

The machines are plain Python floats; nothing here imports the code under test or pandas.
"""
import math
from collections import deque

NAN = float("nan")
INF = float("inf")
ANY = None
isnan = math.isnan
isinf = math.isinf


# ------------------------------------------------------------------ arithmetic with NAN and ANY
def add(a, b):
    return ANY if a is ANY or b is ANY else a + b


def sub(a, b):
    return ANY if a is ANY or b is ANY else a - b


def mul(a, b):
    return ANY if a is ANY or b is ANY else a * b


def div(a, b, safe=True, tiny=0.0):
    """IEEE division.  `tiny`: below it the denominator is rounding noise; `safe`: a denominator of
    exactly zero is exact in every reasonable evaluation order."""
    if a is ANY or b is ANY:
        return ANY
    if b == 0.0:
        if not safe:
            return ANY
        if a == 0.0 or isnan(a):
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    if abs(b) <= tiny:
        return ANY
    if isinf(a) and isinf(b):
        return NAN
    return a / b


class Lag:
    """value k bars ago"""

    def __init__(self, k):
        self.k = k
        self.q = deque()

    def push(self, x):
        if self.k == 0:
            return x
        self.q.append(x)
        if len(self.q) <= self.k:
            return NAN
        return self.q.popleft()


class Roll:
    """window of the last w bars; infinities count as missing"""

    def __init__(self, w, minp):
        self.w = w
        self.minp = minp
        self.q = deque(maxlen=w)

    def push(self, x):
        if x is not ANY and isinf(x):
            x = NAN
        self.q.append(x)

    def obs(self):
        """observations in the window, or None (too few), or ANY marker"""
        for x in self.q:
            if x is ANY:
                return "any"
        v = [x for x in self.q if not isnan(x)]
        if len(v) < self.minp:
            return None
        return v

    def _r(self, f, empty):
        v = self.obs()
        if v == "any":
            return ANY
        if v is None:
            return NAN
        if not v:
            return empty
        return f(v)

    def sum(self):
        return self._r(math.fsum, 0.0)

    def mean(self):
        return self._r(lambda v: math.fsum(v) / len(v), NAN)

    def max(self):
        return self._r(max, NAN)

    def min(self):
        return self._r(min, NAN)

    def std(self):
        def f(v):
            if max(v) == min(v):
                return 0.0
            m = math.fsum(v) / len(v)
            return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))

        return self._r(f, NAN)


class Ewm:
    """recursive exponential mean: y = y + alpha (x - y), started at the first observation"""

    def __init__(self, alpha, minp):
        self.a = alpha
        self.minp = max(minp, 1)
        self.y = NAN
        self.n = 0
        self.ow = 1.0
        self.any = False

    def push(self, x):
        if x is ANY or self.any:
            self.any = True
            return ANY
        if isinf(x):
            x = NAN
        obs = not isnan(x)
        if obs:
            self.n += 1
        if not isnan(self.y):
            self.ow *= 1.0 - self.a
            if obs:
                if self.y != x:
                    if self.ow == 0.0:
                        self.y = x
                    else:
                        self.y = (self.ow * self.y + self.a * x) / (self.ow + self.a)
                self.ow = 1.0
        elif obs:
            self.y = x
            self.ow = 1.0
        return self.y if self.n >= self.minp else NAN


def span(w):
    return 2.0 / (w + 1.0)


def mp(w, fillna, least=0):
    return least if fillna else w


class Machine:
    def __init__(self, p, fillna, exact, scale):
        self.p = p
        self.f = fillna
        self.exact = exact      # history of small integers: sums and comparisons are exact
        self.scale = scale      # largest magnitude in the history
        self.tiny = 1e-9 * scale
        self.t = -1
        self.init()

    def near(self, a, b):
        """a tie that rounding decides"""
        return a != b and abs(a - b) <= 1e-10 * self.scale


# ------------------------------------------------------------------------------------- momentum
class RSIIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.up = Ewm(1.0 / w, mp(w, self.f))
        self.dn = Ewm(1.0 / w, mp(w, self.f))
        self.prev = NAN

    def step(self, o, h, l, c, v):
        d = c - self.prev
        self.prev = c
        u = self.up.push(d if d > 0 else 0.0)
        n = self.dn.push(-d if d < 0 else 0.0)
        if isnan(u) or isnan(n):
            return (NAN,)
        if n == 0.0:
            return (100.0,)
        return (100.0 - 100.0 / (1.0 + u / n),)


class TSIIndicator(Machine):
    def init(self):
        s, f = self.p["window_slow"], self.p["window_fast"]
        self.e = [Ewm(span(s), mp(s, self.f)), Ewm(span(f), mp(f, self.f)),
                  Ewm(span(s), mp(s, self.f)), Ewm(span(f), mp(f, self.f))]
        self.prev = NAN

    def step(self, o, h, l, c, v):
        d = c - self.prev
        self.prev = c
        a = self.e[1].push(self.e[0].push(d))
        b = self.e[3].push(self.e[2].push(abs(d)))
        return (mul(div(a, b), 100.0),)


class UltimateOscillator(Machine):
    def init(self):
        self.ws = [self.p["window1"], self.p["window2"], self.p["window3"]]
        self.k = [self.p["weight1"], self.p["weight2"], self.p["weight3"]]
        self.bp = [Roll(w, mp(w, self.f)) for w in self.ws]
        self.tr = [Roll(w, mp(w, self.f)) for w in self.ws]
        self.prev = NAN

    def step(self, o, h, l, c, v):
        pc = self.prev
        self.prev = c
        if isnan(pc):
            tr, bp = h - l, NAN
        else:
            tr, bp = max(h, pc) - min(l, pc), c - min(l, pc)
        tot = 0.0
        for b, r, k in zip(self.bp, self.tr, self.k):
            b.push(bp)
            r.push(tr)
            tot = add(tot, mul(div(b.sum(), r.sum(), self.exact, self.tiny), k))
        return (div(mul(tot, 100.0), sum(self.k)),)


class StochasticOscillator(Machine):
    def init(self):
        w, s = self.p["window"], self.p["smooth_window"]
        self.hi, self.lo = Roll(w, mp(w, self.f)), Roll(w, mp(w, self.f))
        self.sm = Roll(s, mp(s, self.f))

    def step(self, o, h, l, c, v):
        self.hi.push(h)
        self.lo.push(l)
        hi, lo = self.hi.max(), self.lo.min()
        k = div(100.0 * (c - lo), hi - lo)
        self.sm.push(k)
        return k, self.sm.mean()


class KAMAIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.vol = Roll(w, mp(w, self.f))
        self.lag = Lag(w)
        self.c0 = self.prev = self.y = NAN

    def step(self, o, h, l, c, v):
        if isnan(self.c0):
            self.c0 = self.prev = c
        base = self.lag.push(c)
        if isnan(base):
            base = self.c0
        self.vol.push(abs(c - self.prev))
        self.prev = c
        den = self.vol.sum()
        if isnan(den):
            return (NAN,)
        er = abs(c - base) / den if den > self.tiny * 1e-3 else 0.0
        a, b = 2.0 / (self.p["pow1"] + 1), 2.0 / (self.p["pow2"] + 1)
        sc = (er * (a - b) + b) ** 2
        self.y = c if isnan(self.y) else self.y + sc * (c - self.y)
        return (self.y,)


class ROCIndicator(Machine):
    def init(self):
        self.lag = Lag(self.p["window"])

    def step(self, o, h, l, c, v):
        b = self.lag.push(c)
        return ((c - b) / b * 100.0,)


class AwesomeOscillatorIndicator(Machine):
    def init(self):
        self.r = [Roll(w, mp(w, self.f)) for w in (self.p["window1"], self.p["window2"])]

    def step(self, o, h, l, c, v):
        for r in self.r:
            r.push(0.5 * (h + l))
        return (self.r[0].mean() - self.r[1].mean(),)


class WilliamsRIndicator(Machine):
    def init(self):
        w = self.p["lbp"]
        self.hi, self.lo = Roll(w, mp(w, self.f)), Roll(w, mp(w, self.f))

    def step(self, o, h, l, c, v):
        self.hi.push(h)
        self.lo.push(l)
        hi, lo = self.hi.max(), self.lo.min()
        return (div(-100.0 * (hi - c), hi - lo),)


def stoch_any(x, roll, tol, flat=(0.0, 100.0)):
    """(x - min) / (max - min) over a full window of computed values"""
    v = roll.obs()
    if v == "any":
        return ANY
    if v is None:
        return NAN
    lo, hi = min(v), max(v)
    if hi - lo <= tol:
        if hi == lo and hi in flat:
            return NAN
        return ANY
    return (x - lo) / (hi - lo)


class StochRSIIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.rsi = RSIIndicator(dict(window=w), self.f, self.exact, self.scale)
        self.r = Roll(w, w)
        self.k = Roll(self.p["smooth1"], self.p["smooth1"])
        self.d = Roll(self.p["smooth2"], self.p["smooth2"])

    def step(self, o, h, l, c, v):
        r = self.rsi.step(o, h, l, c, v)[0]
        self.r.push(r)
        s = stoch_any(r, self.r, 1e-6)
        self.k.push(s)
        k = self.k.mean()
        self.d.push(k)
        return s, k, self.d.mean()


class _PctOsc(Machine):
    def init(self):
        s, f, g = self.p["window_slow"], self.p["window_fast"], self.p["window_sign"]
        self.es, self.ef = Ewm(span(s), mp(s, self.f)), Ewm(span(f), mp(f, self.f))
        self.eg = Ewm(span(g), mp(g, self.f))

    def run(self, x):
        f, s = self.ef.push(x), self.es.push(x)
        line = mul(div(f - s, s), 100.0)
        sig = self.eg.push(line)
        return line, sig, sub(line, sig)


class PercentagePriceOscillator(_PctOsc):
    def step(self, o, h, l, c, v):
        return self.run(c)


class PercentageVolumeOscillator(_PctOsc):
    def step(self, o, h, l, c, v):
        return self.run(v)


# ---------------------------------------------------------------------------------------- trend
class AroonIndicator(Machine):
    def init(self):
        n = self.p["window"]
        self.h, self.l = Roll(n + 1, mp(n + 1, self.f, 1)), Roll(n + 1, mp(n + 1, self.f, 1))

    def step(self, o, h, l, c, v):
        n = self.p["window"]
        self.h.push(h)
        self.l.push(l)
        hs, ls = self.h.obs(), self.l.obs()
        if hs is None:
            return NAN, NAN, NAN
        up = 100.0 * (n - (len(hs) - 1 - hs.index(max(hs)))) / n
        dn = 100.0 * (n - (len(ls) - 1 - ls.index(min(ls)))) / n
        return up, dn, up - dn


class MACD(Machine):
    def init(self):
        s, f, g = self.p["window_slow"], self.p["window_fast"], self.p["window_sign"]
        self.es, self.ef = Ewm(span(s), mp(s, self.f)), Ewm(span(f), mp(f, self.f))
        self.eg = Ewm(span(g), mp(g, self.f))

    def step(self, o, h, l, c, v):
        line = self.ef.push(c) - self.es.push(c)
        sig = self.eg.push(line)
        return line, sig, line - sig


class EMAIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.e = Ewm(span(w), mp(w, self.f))

    def step(self, o, h, l, c, v):
        return (self.e.push(c),)


class SMAIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.r = Roll(w, mp(w, self.f))

    def step(self, o, h, l, c, v):
        self.r.push(c)
        return (self.r.mean(),)


class WMAIndicator(Machine):
    def init(self):
        self.r = Roll(self.p["window"], self.p["window"])

    def step(self, o, h, l, c, v):
        w = self.p["window"]
        self.r.push(c)
        q = self.r.obs()
        if q is None:
            return (NAN,)
        return (math.fsum((i + 1) * x for i, x in enumerate(q)) / (w * (w + 1) / 2.0),)


class TRIXIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.e = [Ewm(span(w), mp(w, self.f)) for _ in range(3)]
        self.prev = NAN

    def step(self, o, h, l, c, v):
        x = c
        for e in self.e:
            x = e.push(x)
        r = (x - self.prev) / self.prev * 100.0
        self.prev = x
        return (r,)


class MassIndex(Machine):
    def init(self):
        f, s = self.p["window_fast"], self.p["window_slow"]
        self.e1, self.e2 = Ewm(span(f), mp(f, self.f)), Ewm(span(f), mp(f, self.f))
        self.r = Roll(s, mp(s, self.f))

    def step(self, o, h, l, c, v):
        a = self.e1.push(h - l)
        self.r.push(div(a, self.e2.push(a)))
        return (self.r.sum(),)


class IchimokuIndicator(Machine):
    def init(self):
        w = [self.p["window1"], self.p["window2"], self.p["window3"]]
        self.h = [Roll(x, mp(x, self.f)) for x in w]
        self.l = [Roll(x, mp(x, self.f)) for x in w]
        k = w[1] if self.p["visual"] else 0
        self.la, self.lb = Lag(k), Lag(k)

    def step(self, o, h, l, c, v):
        for r in self.h:
            r.push(h)
        for r in self.l:
            r.push(l)
        m = [0.5 * (a.max() + b.min()) for a, b in zip(self.h, self.l)]
        return m[0], m[1], self.la.push(0.5 * (m[0] + m[1])), self.lb.push(m[2])


class KSTIndicator(Machine):
    def init(self):
        self.lag = [Lag(self.p[f"roc{i}"]) for i in (1, 2, 3, 4)]
        self.r = [Roll(self.p[f"window{i}"], mp(self.p[f"window{i}"], self.f))
                  for i in (1, 2, 3, 4)]
        self.s = Roll(self.p["nsig"], mp(self.p["nsig"], self.f))

    def step(self, o, h, l, c, v):
        tot = 0.0
        for i in range(4):
            b = self.lag[i].push(c)
            self.r[i].push((c - b) / b)
            tot += (i + 1) * self.r[i].mean()
        k = 100.0 * tot
        self.s.push(k)
        s = self.s.mean()
        return k, s, k - s


class DPOIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.lag = Lag(int(0.5 * w) + 1)
        self.r = Roll(w, mp(w, self.f))

    def step(self, o, h, l, c, v):
        self.r.push(c)
        return (self.lag.push(c) - self.r.mean(),)


class CCIIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.r = Roll(w, mp(w, self.f))

    def step(self, o, h, l, c, v):
        tp = (h + l + c) / 3.0
        self.r.push(tp)
        q = self.r.obs()
        if q is None:
            return (NAN,)
        m = math.fsum(q) / len(q)
        if max(q) - min(q) <= self.tiny:
            return (NAN if self.exact else ANY,)
        mad = math.fsum(abs(x - m) for x in q) / len(q)
        return (div(tp - m, self.p["constant"] * mad),)


class ADXIndicator(Machine):
    def init(self):
        self.ph = self.pl = self.pc = NAN
        self.tr = self.dp = self.dn = self.dxs = 0.0
        self.adx = 0.0
        self.any = False

    def step(self, o, h, l, c, v):
        w = self.p["window"]
        ph, pl, pc = self.ph, self.pl, self.pc
        self.ph, self.pl, self.pc = h, l, c
        if self.t == 0:
            return 0.0, 0.0, 0.0
        tr = max(h, pc) - min(l, pc)
        up, dn = h - ph, pl - l
        if self.near(up, dn) or self.near(h, ph) or self.near(l, pl):
            self.any = True
        p = up if up > dn and up > 0 else 0.0
        n = dn if dn > up and dn > 0 else 0.0
        if self.t > w:
            self.tr -= self.tr / w
            self.dp -= self.dp / w
            self.dn -= self.dn / w
        self.tr += tr
        self.dp += p
        self.dn += n
        if self.t < w:
            return 0.0, 0.0, 0.0
        if self.tr < self.tiny and not self.exact:
            self.any = True
        dip = 100.0 * self.dp / self.tr if self.tr != 0 else 0.0
        din = 100.0 * self.dn / self.tr if self.tr != 0 else 0.0
        dx = 100.0 * abs(dip - din) / (dip + din) if dip + din != 0 else 0.0
        if self.t < 2 * w - 1:
            self.dxs += dx
        elif self.t == 2 * w - 1:
            self.adx = (self.dxs + dx) / w
        else:
            self.adx = (self.adx * (w - 1) + dx) / w
        if self.any:
            return (ANY if self.t >= 2 * w - 1 else 0.0), ANY, ANY
        return self.adx, dip, din


class VortexIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.tr, self.up, self.dn = (Roll(w, mp(w, self.f)) for _ in range(3))
        self.ph = self.pl = self.pc = NAN

    def step(self, o, h, l, c, v):
        pc = self.pc
        self.tr.push(h - l if isnan(pc) else max(h, pc) - min(l, pc))
        self.up.push(abs(h - self.pl))
        self.dn.push(abs(l - self.ph))
        self.ph, self.pl, self.pc = h, l, c
        t = self.tr.sum()
        a = div(self.up.sum(), t, self.exact, self.tiny)
        b = div(self.dn.sum(), t, self.exact, self.tiny)
        return a, b, sub(a, b)


class PSARIndicator(Machine):
    def init(self):
        self.up = True
        self.bars = []
        self.any = False

    def step(self, o, h, l, c, v):
        t = self.t
        self.bars.append((h, l))
        if t == 0:
            self.af = self.p["step"]
            self.ep_hi, self.ep_lo = h, l
        if t < 2:
            self.sar = c
            return c, NAN, NAN, 0.0, 0.0
        (h1, l1), (h2, l2) = self.bars[t - 1], self.bars[t - 2]
        was = self.up if t > 2 else None
        rev = False
        st, mx = self.p["step"], self.p["max_step"]
        if self.up:
            s = self.sar + self.af * (self.ep_hi - self.sar)
            if self.near(l, s):
                self.any = True
            if l < s:
                rev, s = True, self.ep_hi
                self.ep_lo, self.af = l, st
            else:
                if h > self.ep_hi:
                    self.ep_hi, self.af = h, min(self.af + st, mx)
                if l2 < s:
                    s = l2
                if l1 < s:
                    s = l1
        else:
            s = self.sar - self.af * (self.sar - self.ep_lo)
            if self.near(h, s):
                self.any = True
            if h > s:
                rev, s = True, self.ep_lo
                self.ep_hi, self.af = h, st
            else:
                if l < self.ep_lo:
                    self.ep_lo, self.af = l, min(self.af + st, mx)
                if h2 > s:
                    s = h2
                if h1 > s:
                    s = h1
        self.sar = s
        if rev:
            self.up = not self.up
        if self.any:
            return ANY, ANY, ANY, ANY, ANY
        fu = 1.0 if self.up and was is not True else 0.0
        fd = 1.0 if not self.up and was is not False else 0.0
        return s, (s if self.up else NAN), (NAN if self.up else s), fu, fd


class STCIndicator(Machine):
    def init(self):
        s, f, c = self.p["window_slow"], self.p["window_fast"], self.p["cycle"]
        g1, g2 = self.p["smooth1"], self.p["smooth2"]
        self.es, self.ef = Ewm(span(s), mp(s, self.f)), Ewm(span(f), mp(f, self.f))
        self.r1, self.r2 = Roll(c, c), Roll(c, c)
        self.e1, self.e2 = Ewm(span(g1), mp(g1, self.f)), Ewm(span(g2), mp(g2, self.f))

    def step(self, o, h, l, c, v):
        m = self.ef.push(c) - self.es.push(c)
        self.r1.push(m)
        k = mul(stoch_any(m, self.r1, self.tiny * 1e4, (0.0,)), 100.0)
        d = self.e1.push(k)
        self.r2.push(d)
        kd = mul(stoch_any(d, self.r2, 1e-3, (0.0,)), 100.0)
        return (self.e2.push(kd),)


# ----------------------------------------------------------------------------------- volatility
class AverageTrueRange(Machine):
    def init(self):
        self.pc = NAN
        self.s = 0.0
        self.y = 0.0

    def step(self, o, h, l, c, v):
        w = self.p["window"]
        tr = h - l if isnan(self.pc) else max(h, self.pc) - min(l, self.pc)
        self.pc = c
        if self.t < w:
            self.s += tr
            if self.t == w - 1:
                self.y = self.s / w
        else:
            self.y = (self.y * (w - 1) + tr) / w
        return (self.y,)


def cross(m, a, b, above):
    """indicator of a > b (above) or a < b, 0 while the band is undefined"""
    if b is ANY or m.near(a, b):
        return ANY
    return 1.0 if (a > b if above else a < b) else 0.0


class BollingerBands(Machine):
    def init(self):
        w = self.p["window"]
        self.r = Roll(w, mp(w, self.f))

    def step(self, o, h, l, c, v):
        self.r.push(c)
        m, s = self.r.mean(), self.r.std()
        k = self.p["window_dev"]
        hi, lo = m + k * s, m - k * s
        w = ANY if abs(m) <= 1e-9 * self.scale else (hi - lo) / m * 100.0
        pb = NAN if s == 0.0 else (c - lo) / (hi - lo) if s == s else NAN
        if s == 0.0 and not self.exact:
            pb = ANY
            return m, hi, lo, w, pb, ANY, ANY
        if s == 0.0 and c == m:
            return m, hi, lo, w, pb, 0.0, 0.0
        if s > 0 and abs(abs(c - m) - k * s) <= 1e-8 * self.scale:
            return m, hi, lo, w, pb, ANY, ANY
        return m, hi, lo, w, pb, cross(self, c, hi, True), cross(self, c, lo, False)


class KeltnerChannel(Machine):
    def init(self):
        w = self.p["window"]
        if self.p["original_version"]:
            self.r = [Roll(w, mp(w, self.f, 1)) for _ in range(3)]
        else:
            self.e = Ewm(span(w), mp(w, self.f, 1))
            self.atr = AverageTrueRange(dict(window=self.p["window_atr"]), self.f, self.exact,
                                        self.scale)

    def step(self, o, h, l, c, v):
        if self.p["original_version"]:
            x = ((h + l + c) / 3.0, (4 * h - 2 * l + c) / 3.0, (-2 * h + 4 * l + c) / 3.0)
            for r, y in zip(self.r, x):
                r.push(y)
            m, hi, lo = (r.mean() for r in self.r)
        else:
            m = self.e.push(c)
            self.atr.t = self.t
            a = self.atr.step(o, h, l, c, v)[0]
            hi, lo = m + self.p["multiplier"] * a, m - self.p["multiplier"] * a
        if isnan(m):
            return m, hi, lo, NAN, NAN, 0.0, 0.0
        w = ANY if abs(m) <= 1e-9 * self.scale else (hi - lo) / m * 100.0
        if hi - lo <= self.tiny:
            # a channel of no width
            if abs(c - m) > self.tiny:
                safe = self.exact or (hi == lo and not self.p["original_version"])
                return (m, hi, lo, w, div(c - lo, hi - lo, safe, self.tiny),
                        1.0 if c > m else 0.0, 1.0 if c < m else 0.0)
            if hi == lo == c and (self.exact or not self.p["original_version"]):
                return m, hi, lo, w, NAN, 0.0, 0.0
            return m, hi, lo, w, ANY, ANY, ANY
        return (m, hi, lo, w, (c - lo) / (hi - lo), cross(self, c, hi, True),
                cross(self, c, lo, False))


class DonchianChannel(Machine):
    def init(self):
        w = self.p["window"]
        self.h, self.l, self.c = (Roll(w, mp(w, self.f, 1)) for _ in range(3))
        self.lags = [Lag(self.p["offset"]) for _ in range(5)]

    def step(self, o, h, l, c, v):
        self.h.push(h)
        self.l.push(l)
        self.c.push(c)
        hi, lo, m = self.h.max(), self.l.min(), self.c.mean()
        out = (hi, lo, (hi - lo) / 2.0 + lo,
               ANY if abs(m) <= 1e-9 * self.scale else (hi - lo) / m * 100.0, div(c - lo, hi - lo))
        return tuple(g.push(x) for g, x in zip(self.lags, out))


class UlcerIndex(Machine):
    def init(self):
        w = self.p["window"]
        self.mx, self.r = Roll(w, 1), Roll(w, w)

    def step(self, o, h, l, c, v):
        self.mx.push(c)
        m = self.mx.max()
        self.r.push(100.0 * (c - m) / m)
        q = self.r.obs()
        if q is None:
            return (NAN,)
        return (math.sqrt(math.fsum(x * x for x in q) / self.p["window"]),)


# --------------------------------------------------------------------------------------- volume
def clv(h, l, c):
    return 0.0 if h == l else ((c - l) - (h - c)) / (h - l)


class AccDistIndexIndicator(Machine):
    def init(self):
        self.y = 0.0

    def step(self, o, h, l, c, v):
        self.y += clv(h, l, c) * v
        return (self.y,)


class OnBalanceVolumeIndicator(Machine):
    def init(self):
        self.y = 0.0
        self.pc = NAN

    def step(self, o, h, l, c, v):
        if c < self.pc:
            self.y -= v
        elif c != self.pc:
            self.y += v
        self.pc = c
        return (self.y,)


class ChaikinMoneyFlowIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.a, self.b = Roll(w, mp(w, self.f)), Roll(w, mp(w, self.f))
        self.vmax = 0.0

    def step(self, o, h, l, c, v):
        self.a.push(clv(h, l, c) * v)
        self.b.push(v)
        self.vmax = max(self.vmax, v)
        return (div(self.a.sum(), self.b.sum(), self.exact, 1e-9 * self.vmax),)


class ForceIndexIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.e = Ewm(span(w), mp(w, self.f))
        self.pc = NAN

    def step(self, o, h, l, c, v):
        x = (c - self.pc) * v
        self.pc = c
        return (self.e.push(x),)


class EaseOfMovementIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.r = Roll(w, mp(w, self.f))
        self.ph = self.pl = NAN

    def step(self, o, h, l, c, v):
        num = ((h - self.ph) + (l - self.pl)) * (h - l)
        self.ph, self.pl = h, l
        x = div(num, 2.0 * v) * 1e8
        self.r.push(x)
        return x, self.r.mean()


class VolumePriceTrendIndicator(Machine):
    def init(self):
        s = self.p["smoothing_factor"]
        self.r = Roll(s, mp(s, self.f)) if s else None
        self.y = 0.0
        self.pc = NAN

    def step(self, o, h, l, c, v):
        x = (c / self.pc - 1.0) * v
        self.pc = c
        if isnan(x):
            y = NAN
        else:
            self.y += x
            y = self.y
        if self.r is None:
            return (y,)
        self.r.push(y)
        return (self.r.mean(),)


class NegativeVolumeIndexIndicator(Machine):
    def init(self):
        self.y = 1000.0
        self.pc = self.pv = NAN

    def step(self, o, h, l, c, v):
        if v < self.pv:
            self.y *= c / self.pc
        self.pc, self.pv = c, v
        return (self.y,)


class MFIIndicator(Machine):
    def init(self):
        w = self.p["window"]
        self.r = Roll(w, mp(w, self.f))
        self.pt = NAN

    def step(self, o, h, l, c, v):
        tp = (h + l + c) / 3.0
        sgn = 1.0 if tp > self.pt else -1.0 if tp < self.pt else 0.0
        x = tp * v * sgn
        if self.near(tp, self.pt):
            x = ANY
        self.pt = tp
        self.r.push(x)
        q = self.r.obs()
        if q == "any":
            return (ANY,)
        if q is None:
            return (NAN,)
        pos, neg = math.fsum(y for y in q if y > 0), -math.fsum(y for y in q if y < 0)
        if neg == 0.0:
            return (NAN if pos == 0.0 else 100.0,)
        return (100.0 - 100.0 / (1.0 + pos / neg),)


class VolumeWeightedAveragePrice(Machine):
    def init(self):
        w = self.p["window"]
        self.a, self.b = Roll(w, mp(w, self.f)), Roll(w, mp(w, self.f))
        self.vmax = 0.0

    def step(self, o, h, l, c, v):
        self.a.push((h + l + c) / 3.0 * v)
        self.b.push(v)
        self.vmax = max(self.vmax, v)
        return (div(self.a.sum(), self.b.sum(), self.exact, 1e-9 * self.vmax),)


# --------------------------------------------------------------------------------------- others
class DailyReturnIndicator(Machine):
    def init(self):
        self.pc = NAN

    def step(self, o, h, l, c, v):
        r = (c / self.pc - 1.0) * 100.0
        self.pc = c
        return (r,)


class DailyLogReturnIndicator(Machine):
    def init(self):
        self.pc = NAN

    def step(self, o, h, l, c, v):
        r = NAN if isnan(self.pc) or isnan(c) else math.log(c / self.pc) * 100.0 if c > 0 and self.pc > 0 else ANY
        self.pc = c
        return (r,)


class CumulativeReturnIndicator(Machine):
    def init(self):
        self.c0 = NAN

    def step(self, o, h, l, c, v):
        if isnan(self.c0):
            self.c0 = c
        return ((c / self.c0 - 1.0) * 100.0,)


# ------------------------------------------------------------------------------------- finishing
def finish(col, fill, close):
    """The documented gap filling of fillna=True: keep the last defined value; before the first
    one put the neutral value (`fill`), or the first defined value for 'b'."""
    if fill is None:
        return list(col)
    out = []
    last = NAN
    for i, x in enumerate(col):
        if x is ANY:
            last = ANY
        elif not (isnan(x) or isinf(x)):
            last = x
        if last is not ANY and isnan(last):
            out.append(NAN if fill == "b" else close[i] if fill == "close" else float(fill))
        else:
            out.append(last)
    if fill == "b":
        first = 0.0
        for x in out:
            if x is ANY or not isnan(x):
                first = x
                break
        out = [first if (x is not ANY and isnan(x)) else x for x in out]
    return out


def run(cls, p, fillna, bars, exact, scale):
    """bars: list of (o, h, l, c, v).  Returns one column per published line (reg order)."""
    m = globals()[cls.name](p, fillna, exact, scale)
    rows = []
    for t, b in enumerate(bars):
        m.t = t
        rows.append(m.step(*b))
    cols = [list(c) for c in zip(*rows)]
    if p.get("dropnans"):       # undefined rows are left out before anything else
        return [[x for x in c if not isnan(x)] for c in cols]
    if fillna:
        close = [b[3] for b in bars]
        cols = [finish(c, o.fill, close) for c, o in zip(cols, cls.outs)]
    return cols
