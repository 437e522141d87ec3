"""The seam to the code under test: build inputs, call the public API, read results."""
import os
import sys
import warnings

ROOT = os.environ.get("TA_ROOT", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(os.environ.get("TMPDIR", "/tmp"), "no-such-pycache-%d" % os.getpid())
sys.path.insert(0, ROOT)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

import ta  # noqa: E402
import ta.momentum  # noqa: E402,F401
import ta.others  # noqa: E402,F401
import ta.trend  # noqa: E402,F401
import ta.utils  # noqa: E402,F401
import ta.volatility  # noqa: E402,F401
import ta.volume  # noqa: E402,F401
import ta.wrapper  # noqa: E402,F401

assert os.path.realpath(ta.__file__).startswith(os.path.realpath(ROOT) + os.sep), ta.__file__

np.seterr(all="warn", under="ignore")      # numpy defaults; warnings are silenced above

CALLS = 0          # calls into the code under test

FIELD = {"open": 0, "high": 1, "low": 2, "close": 3, "volume": 4}
DAY = "2024-01-01"

INDEXES = {
    "range": lambda n: pd.RangeIndex(n),
    "offset": lambda n: pd.RangeIndex(7, 7 + n),
    "step": lambda n: pd.RangeIndex(0, 3 * n, 3),
    "reversed": lambda n: pd.RangeIndex(n - 1, -1, -1),
    "shuffled": lambda n: pd.Index([(i * 7 + 3) % n if n % 7 else (i * 5 + 2) % n
                                    for i in range(n)]) if n else pd.Index([]),
    "datetime": lambda n: pd.date_range(DAY, periods=n, freq="D"),
    "tz": lambda n: pd.date_range(DAY, periods=n, freq="h", tz="UTC"),
    "datedesc": lambda n: pd.date_range(DAY, periods=n, freq="D")[::-1],
    "string": lambda n: pd.Index([f"k{i:05d}" for i in range(n)]),
    "dup": lambda n: pd.Index([i // 2 for i in range(n)]),
    "const": lambda n: pd.Index([1] * n),
    "float": lambda n: pd.Index([i * 0.5 for i in range(n)]),
    "negative": lambda n: pd.Index([i - n for i in range(n)]),
    "bdate": lambda n: pd.bdate_range(DAY, periods=n),
    "irregular": lambda n: pd.DatetimeIndex([pd.Timestamp(DAY) + pd.Timedelta(i * i % 11 + 5 * i, "h") for i in range(n)]),
    "dupdate": lambda n: pd.DatetimeIndex([pd.Timestamp(DAY) + pd.Timedelta(i // 3, "D") for i in range(n)]),
    "period": lambda n: pd.period_range(DAY, periods=n, freq="D"),
    "timedelta": lambda n: pd.to_timedelta(list(range(n)), unit="min"),
    "nanlabel": lambda n: pd.Index([float("nan") if i % 3 == 1 else float(i) for i in range(n)]),
    "mixed": lambda n: pd.Index([("a%d" % i if i % 2 else i) for i in range(n)], dtype=object),
    "categorical": lambda n: pd.CategoricalIndex([("b", "a", "c")[i % 3] + str(i) for i in range(n)]),
    "interval": lambda n: pd.interval_range(0, n, periods=n) if n else pd.IntervalIndex([]),
    "named": lambda n: pd.RangeIndex(n, name="when"),
    "multi": lambda n: pd.MultiIndex.from_tuples([("s", i) for i in range(n)], names=["a", "b"]),
}


def columns(bars):
    """dict name -> float64 array"""
    a = np.array(bars, dtype="float64").reshape(len(bars), 5)
    return {k: np.ascontiguousarray(a[:, i]) for k, i in FIELD.items()}


def series(bars, names, index="range", dtype="float64"):
    n = len(bars)
    idx = INDEXES[index](n)
    cols = columns(bars)
    out = {}
    for k in names:
        a = cols[k]
        if dtype in ("int64", "int32", "int16", "uint64", "uint32", "uint16", "int8", "uint8", "float32"):
            a = a.astype(dtype)
        elif dtype in ("Float64", "Int64", "UInt32", "Float32"):
            a = pd.array(a, dtype=dtype)
        elif dtype == "object":
            a = a.astype(object)
        elif dtype == "strided":
            z = np.zeros(2 * n)
            z[::2] = a
            a = z[::2]
        elif dtype == "readonly":
            a = a.copy()
            a.flags.writeable = False
        elif dtype in ("intvol", "uintvol") and k == "volume":
            a = a.astype("int64" if dtype == "intvol" else "uint64")
        elif dtype in ("int8vol", "uint8vol", "int16vol") and k == "volume":
            a = a.astype(dtype[:-3])
        out[k] = pd.Series(a, index=idx, name=None if dtype == "noname" else "x" if dtype == "samename" else k)
    return out


def frame(bars, index="range", dtype="float64"):
    s = series(bars, FIELD, index, dtype)
    return pd.DataFrame(s)


def cls_of(c):
    return getattr(sys.modules[c.module], c.name)


def make(c, p, fillna, s):
    return cls_of(c)(**s, **p, fillna=fillna)


def get(inst, o):
    return getattr(inst, o.method)()


def call(c, p, fillna, bars, index="range", dtype="float64"):
    """all published lines of one class: list of Series"""
    inst = make(c, p, fillna, series(bars, c.inputs, index, dtype))
    return [getattr(inst, o.method)() for o in c.outs]


def func(c, o):
    return getattr(sys.modules[c.module], o.func) if o.func else None


def fparams(c, o, p):
    """the part of p the function form accepts"""
    return {k: v for k, v in p.items() if o.fonly is None or k in o.fonly}
