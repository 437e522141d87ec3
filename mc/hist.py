"""The histories that are enumerated: alphabets of bars, full trees, de Bruijn paths, base
trajectories and their deviations.  A bar is (open, high, low, close, volume); every history is
inside the library's domain: finite prices, 0 < low <= open, close <= high, volume >= 0."""
import itertools

NAN = float("nan")


def bar(l, c, h, v, o=None):
    if o is None:
        o = l if c != l else h
    return (float(o), float(h), float(l), float(c), float(v))


# (low, close, high); high + low + close is a multiple of 3, so typical prices are exact
SHAPES = [(2, 2, 2), (1, 2, 3), (1, 4, 4), (1, 1, 4), (4, 5, 6), (3, 6, 6), (3, 3, 6), (2, 3, 4),
          (5, 5, 5), (1, 3, 5), (2, 2, 5), (2, 5, 5)]
VOLS = (1, 3, 0, 2)


def closes(prices, vol=1):
    return [bar(p, p, p, vol) for p in prices]


CLOSE4 = closes((2, 1, 3, 5))
CLOSE5 = closes((4, 1, 2, 7, 8))
CLOSE3 = closes((2, 1, 4))


def vols(vs):
    return [bar(1, 2, 3, v) for v in vs]


def cv(prices, vs):
    return [bar(p, p, p, v) for p in prices for v in vs]


def hl(k):
    return [bar(*s, 1) for s in SHAPES[:k]]


def hlcv(k):
    """k bars; the volume varies independently of the shape as far as k allows"""
    out = []
    for i in range(k):
        s = SHAPES[i % len(SHAPES)]
        out.append(bar(*s, VOLS[(i * 7 + i // 4) % 4]))
    return out


def product(shapes, vs):
    return [bar(*s, v) for s in shapes for v in vs]


def debruijn(k, n):
    """de Bruijn sequence: every word of length n over k letters occurs (cyclically) once"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield list(w)


def lcg(seed):
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    while True:
        x = (x * 1664525 + 1013904223) & 0xFFFFFFFF
        yield x / 4294967296.0


SHIFTED = {"below": ("walk", -400.0), "cross": ("walk", -100.0), "cross2": ("zigzag", -42.0),
           "high": ("walk", 60000.0)}     # small moves on a high level


def base(kind, n):
    """Deterministic long histories in decimals."""
    if kind in SHIFTED:   # prices below or around zero
        k, d = SHIFTED[kind]
        return [(o + d, h + d, l + d, c + d, v) for o, h, l, c, v in base(k, n)]
    if kind == "settle":      # a move, then bars of one price and one range
        w = base("walk", min(n, 24))
        return w + [(75.0, 100.0, 50.0, 75.0, 100.0)] * (n - len(w))
    if kind == "creep":       # a million, moving by hundredths
        return [tuple(1e6 + round(x - 100.0, 2) / 64 for x in b[:4]) + (b[4],) for b in base("walk", n)]
    if kind == "bulk":        # volumes of billions, to the last share
        return [(o, h, l, c, float(int(v * 3e6) + i % 7)) for i, (o, h, l, c, v) in enumerate(base("walk", n))]
    if kind in ("whole", "wholebig"):   # whole numbers that fit 8 (16) bits, typical prices not whole
        k = 1 if kind == "whole" else 257
        out = []
        for i, (o, h, l, c, v) in enumerate(base("zigzag", n)):
            x = [float(max(1, min(120, round(y)))) * k + (0 if k == 1 else i % 3) for y in (o, h, l, c)]
            out.append((x[0], x[1], x[2], x[3], float((int(v) * 7 + i) % 121 * k)))
        return out
    r = lcg(sum(map(ord, kind)))
    out = []
    p = 100.0
    for i in range(n):
        a, b, d, e = next(r), next(r), next(r), next(r)
        if kind == "flat":
            p, s = 50.0, 0.0
        elif kind == "up":
            p, s = 20.0 + 0.37 * i, 0.4
        elif kind == "down":
            p, s = 10.0 + 0.31 * (n - i), 0.3
        elif kind == "zigzag":
            p, s = 30.0 + 3.1 * abs((i % 14) - 7) + 0.05 * i, 0.7
        elif kind == "walk":
            p, s = max(5.0, p + 6.0 * (a - 0.5)), 2.0
        elif kind == "penny":
            p, s = max(0.0005, (p if i else 0.02) + 0.002 * (a - 0.5)), 0.0007
        elif kind == "micro":
            p, s = max(1e-6, (p if i else 2e-5) + 3e-6 * (a - 0.5)), 1e-6
        elif kind == "giant":
            p, s = max(1e6, (p if i else 4e6) + 3e5 * (a - 0.5)), 1e5
        elif kind == "spike":
            q = p = max(5.0, p + 4.0 * (a - 0.5))
            s = 1.5
            if i % 17 == 11:
                q = p * 6.0
            elif i % 23 == 5:
                q = p * 0.2
            lo = min(q, q - s * b * 0.5)
            out.append((q, q + s * d, lo, round(lo + (q + s * d - lo) * e, 6),
                        0.0 if i % 13 == 4 else round(1000 * b + 10, 2)))
            continue
        else:
            raise KeyError(kind)
        lo, hi = p - s * b * 0.5, p + s * d
        c = lo + (hi - lo) * e
        o = lo + (hi - lo) * a
        v = 0.0 if (i % 19 == 7 and kind in ("walk", "zigzag")) else round(1000 * b + 100 * a + 1, 2)
        if kind == "flat":
            v = 100.0
        if kind == "micro":
            v /= 4096.0
        out.append((o, hi, lo, c, v))
    return out


BASES = ("walk", "zigzag", "up", "down", "flat", "spike", "penny", "giant", "micro")
DEVS = ("up", "down", "tie", "doji", "v0", "wide", "high", "low", "vbig")


MISSING = (NAN, NAN, NAN, NAN, NAN)


def deviate(bars, i, kind):
    """one departure from the base trajectory, at bar i ("kind*k": at k bars from i on)"""
    if "*" in kind:
        kind, k = kind.split("*")
        for j in range(i, min(i + int(k), len(bars))):
            bars = deviate(bars, j, kind)
        return bars
    o, h, l, c, v = bars[i]
    if kind == "up":
        b = (o * 1.5, h * 1.5, l * 1.5, c * 1.5, v)
    elif kind == "down":
        b = (o * 0.5, h * 0.5, l * 0.5, c * 0.5, v)
    elif kind == "tiny":
        b = (o / 16, h / 16, l / 16, c / 16, v)
    elif kind == "huge":
        b = (o * 16, h * 16, l * 16, c * 16, v)
    elif kind == "tie":
        b = bars[i - 1] if i else bars[1 % len(bars)]
    elif kind == "doji":
        b = (c, c, c, c, v)
    elif kind == "v0":
        b = (o, h, l, c, 0.0)
    elif kind == "vbig":
        b = (o, h, l, c, v * 64.0 + 1.0)
    elif kind == "wide":
        b = (o, h * 1.25, l * 0.75, c, v)
    elif kind == "high":
        b = (o, h, l, h, v)
    elif kind == "low":
        b = (o, h, l, l, v)
    elif kind == "nan":
        b = (NAN, NAN, NAN, NAN, NAN)
    elif kind == "nanc":
        b = (o, h, l, NAN, v)
    elif kind == "nanhl":
        b = (o, NAN, NAN, c, v)
    elif kind == "nanv":
        b = (o, h, l, c, NAN)
    elif kind == "infv":
        b = (o, h, l, c, float("inf"))
    elif kind == "infc":
        b = (o, h, l, float("inf"), v)
    elif kind == "inf":
        b = (float("inf"),) * 5
    elif kind == "neginf":
        b = (-float("inf"),) * 4 + (v,)
    elif kind == "zero":
        b = (0.0, 0.0, 0.0, 0.0, 0.0)
    else:
        raise KeyError(kind)
    out = list(bars)
    out[i] = b
    return out


def scaled(bars, a, b):
    return [(o * a, h * a, l * a, c * a, v * b) for o, h, l, c, v in bars]


SCALE_EXP = 20


def is_exact(bars):
    """whole-number bars with whole typical prices (possibly in units of 2^+-20): sums of them are exact"""
    bars = [b for b in bars if any(x == x for x in b)]      # wholly missing bars do not matter
    if bars and bars[0][1] and bars[0][1] == bars[0][1]:
        h = max(abs(bars[0][1]), abs(bars[0][2]))
        if h < 2.0 ** -8:
            bars = scaled(bars, 2.0 ** SCALE_EXP, 1.0)
        elif h > 2.0 ** 18:
            bars = scaled(bars, 2.0 ** -SCALE_EXP, 1.0)
        vm = max(b[4] for b in bars)
        if 0 < vm < 2.0 ** -8:
            bars = scaled(bars, 1.0, 2.0 ** SCALE_EXP)
        elif vm > 2.0 ** 18:
            bars = scaled(bars, 1.0, 2.0 ** -SCALE_EXP)
    for o, h, l, c, v in bars:
        if not (h < 1e300 and l < 1e300 and c < 1e300 and v < 1e300):
            return False
        if h != int(h) or l != int(l) or c != int(c) or v != int(v) or h > 131072 or l < -131072 or v > 4096:
            return False
        if (int(h) + int(l) + int(c)) % 3:
            return False
    return True


def pscale(bars):
    return max([max(b[1], -b[2]) for b in bars if b[1] < 1e300] or [1.0])


def vscale(bars):
    return max([b[4] for b in bars if b[4] < 1e300] or [1.0])


def valid(bars):
    return all(0 < l <= min(o, c) and max(o, c) <= h and v >= 0 for o, h, l, c, v in bars)
