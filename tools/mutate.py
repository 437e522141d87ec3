"""Systematic mutants of /repo/ta that survive the unit tests, run against the checks in scratch copies.

usage: mutate.py OUT.jsonl [FILE[:CLASS] ...]     8 workers; resumes (mutants already in OUT are skipped)
"""
import ast
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import threading

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
FILES = ["momentum", "trend", "volatility", "volume", "others", "utils", "wrapper"]
SWAP_ATTR = {"_high": ["_low", "_close"], "_low": ["_high", "_close"], "_close": ["_high", "_low"],
             "min": ["max", "mean"], "max": ["min"], "mean": ["sum", "median"], "sum": ["mean"], "rolling": ["expanding"],
             "ffill": ["bfill"], "bfill": ["ffill"], "cummax": ["max"], "argmin": ["argmax"], "argmax": ["argmin"]}
CMP = {ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt],
       ast.Eq: [ast.NotEq, ast.LtE], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}


def mutants(tree):
    """yield (describe, class or function, mutated tree)"""
    sites = []

    def walk(node, owner, top):
        for name, val in ast.iter_fields(node):
            vs = val if isinstance(val, list) else [val]
            for k, v in enumerate(vs):
                if isinstance(v, ast.AST):
                    ow, tp = owner, top
                    if isinstance(v, (ast.ClassDef, ast.FunctionDef)) and not top:
                        tp = v.name
                    if isinstance(v, ast.FunctionDef):
                        ow = v.name
                    sites.append((node, name, k if isinstance(val, list) else None, v, tp, ow))
                    walk(v, ow, tp)

    walk(tree, "", "")
    for parent, field, k, v, top, owner in sites:
        if not top:
            continue
        reps = []
        if isinstance(v, ast.Constant):
            if isinstance(v.value, bool):
                reps.append(ast.Constant(not v.value))
            elif isinstance(v.value, int):
                reps += [ast.Constant(v.value + 1), ast.Constant(v.value - 1)]
            elif isinstance(v.value, float):
                reps += [ast.Constant(v.value * 1.5 + 0.25)]
            elif v.value is None and isinstance(parent, ast.keyword):
                continue
        elif isinstance(v, ast.Attribute) and v.attr in SWAP_ATTR:
            for a in SWAP_ATTR[v.attr]:
                w = copy.copy(v)
                w.attr = a
                reps.append(w)
        elif isinstance(v, ast.Compare):
            for o in CMP.get(type(v.ops[0]), []):
                reps.append(ast.Compare(v.left, [o()], v.comparators))
        elif isinstance(v, ast.BinOp):
            for o in BIN.get(type(v.op), []):
                reps.append(ast.BinOp(v.left, o(), v.right))
            if type(v.op) in (ast.Add, ast.Sub, ast.Mult):
                reps += [v.left, v.right]
        elif isinstance(v, ast.UnaryOp) and isinstance(v.op, (ast.USub, ast.Not)):
            reps.append(v.operand)
        elif isinstance(v, ast.IfExp):
            reps += [v.body, v.orelse]
        elif isinstance(v, ast.BoolOp):
            o = ast.And() if isinstance(v.op, ast.Or) else ast.Or()
            reps += [ast.BoolOp(o, v.values)] + list(v.values)
        elif isinstance(v, (ast.Assign, ast.AugAssign, ast.If)) or (isinstance(v, ast.Expr) and not (
                isinstance(v.value, ast.Constant))):
            reps.append(ast.Pass())
        elif isinstance(v, ast.Call):
            # drop a keyword, drop the method call (x.f(...) -> x)
            for i, kw in enumerate(v.keywords):
                if kw.arg in ("name", "index") or (isinstance(v.func, ast.Name) and v.func.id[0].isupper() and False):
                    continue
                reps.append(ast.Call(v.func, v.args, v.keywords[:i] + v.keywords[i + 1:]))
            if isinstance(v.func, ast.Attribute) and v.func.attr in ("abs", "shift", "fillna", "replace", "cumsum", "dropna",
                                                                     "ffill", "bfill", "round", "where"):
                reps.append(v.func.value)
            if len(v.args) >= 2:
                reps.append(ast.Call(v.func, [v.args[1], v.args[0]] + v.args[2:], v.keywords))
        for r in reps:
            if isinstance(getattr(parent, field), list):
                old = getattr(parent, field)[k]
                getattr(parent, field)[k] = r
            else:
                old = getattr(parent, field)
                setattr(parent, field, r)
            try:
                t = ast.fix_missing_locations(copy.deepcopy(tree))
                src = ast.unparse(t)
                o = ast.unparse(old)[:90].split("\n")[0]
                n = ast.unparse(r)[:90].split("\n")[0]
            except Exception:  # noqa: BLE001
                src = None
            if isinstance(getattr(parent, field), list):
                getattr(parent, field)[k] = old
            else:
                setattr(parent, field, old)
            if src:
                yield f"L{getattr(v, 'lineno', 0)} {top}.{owner}: {o} -> {n}", top, owner, src


sys.path.insert(0, os.path.join(HERE, "..", "mc"))


def plan(fn, top, owner, table):
    """(props, classes) to try, in order"""
    grp = table["group"]
    if fn == "wrapper":
        return [("C10", ""), ("C07", ""), ("C03", "")]
    if fn == "utils":
        if top == "dropna":
            return [("C16", "")]
        cl = {"_sma": "SMAIndicator,KSTIndicator", "_ema": "EMAIndicator,MACD,RSIIndicator", "_get_min_max": "",
              "_true_range": "AverageTrueRange,ADXIndicator,VortexIndicator,KeltnerChannel", "IndicatorMixin": "RSIIndicator,BollingerBands,DonchianChannel,MACD"}.get(top, "RSIIndicator")
        ps = sorted({grp[c] for c in cl.split(",") if c in grp})
        return [(",".join(ps), cl), ("C07,C06,C12,C01,C02,C13", cl)]
    if top in grp:
        return [(grp[top], top), ("C06,C07,C08,C09,C02,C13,C27", top), ("C01,C03,C12,C14,C15,C11", top), ("C04,C10", top)]
    c = table["func"].get(top)
    if c:
        return [("C09", c), ("C02,C03,C08", c)]
    return [("C09", "")]


def main():
    out = sys.argv[1]
    only = sys.argv[2:]
    tab = subprocess.check_output([PY, "-c", (
        "import sys,json;sys.path.insert(0,%r);import main,reg;"
        "print(json.dumps(dict(group={c:p for p,v in main.GROUP.items() for c in v},"
        "func={o.func:c.name for c in reg.CLASSES for o in c.outs if o.func})))") % os.path.join(HERE, "..", "mc")], text=True)
    table = json.loads(tab.splitlines()[-1])
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    jobs = []
    for fn in FILES:
        sel = [o for o in only if o.split(":")[0] == fn]
        if only and not sel:
            continue
        want = {o.split(":")[1] for o in sel if ":" in o}
        src = open(f"/repo/ta/{fn}.py").read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for what, top, owner, new in mutants(ast.parse(src)):
            if want and top not in want or new in seen:
                continue
            seen.add(new)
            i = hashlib.sha1((fn + new).encode()).hexdigest()[:10]
            if i not in done:
                jobs.append((i, fn, what, top, owner, new))
    print(len(jobs), "mutants", flush=True)
    lock = threading.Lock()
    root = tempfile.mkdtemp(prefix="mut.")
    pool, free = [], []
    nw = int(os.environ.get("MUT_JOBS", "8"))
    for k in range(nw):
        d = os.path.join(root, "w%d" % k)
        subprocess.check_call(["git", "clone", "-q", "/repo", d])
        free.append(d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    cnt = dict(n=0)

    def one(job):
        i, fn, what, top, owner, new = job
        with lock:
            d = free.pop()
        t0 = time.time()
        rec = dict(id=i, file=fn, what=what)
        try:
            p = f"{d}/ta/{fn}.py"
            with open(p, "w") as f:
                f.write(new)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "python_files=*.py",
                                    "--deselect", "test/unit/momentum.py::TestTSIIndicator", "test/unit"],
                                   cwd=d, capture_output=True, text=True, env=env, timeout=60)
                killed = r.returncode != 0
                if killed and "TSI" in r.stdout and "1 failed" in r.stdout:
                    killed = True
            except subprocess.TimeoutExpired:
                killed = True
            if killed:
                rec["res"] = "TESTS"
            else:
                rec["res"] = "MISSED"
                for props, cl in plan(fn, top, owner, table):
                    if not props:
                        continue
                    try:
                        r = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "mini.py"), props, cl], capture_output=True,
                                           text=True, env=dict(env, TA_ROOT=d), timeout=900)
                        o = r.stdout.strip().splitlines()
                        if o and o[-1].startswith("CAUGHT"):
                            rec["res"] = o[-1][:240]
                            break
                        if not o:
                            rec["res"] = "ERROR " + r.stderr[-200:]
                            break
                    except subprocess.TimeoutExpired:
                        rec["res"] = "TIMEOUT " + props
                        break
        finally:
            subprocess.call(["git", "-C", d, "checkout", "-q", "--", "."])
            with lock:
                free.append(d)
                cnt["n"] += 1
                rec["t"] = round(time.time() - t0, 1)
                with open(out, "a") as f:
                    f.write(json.dumps(rec) + "\n")
                if cnt["n"] % 50 == 0:
                    print(cnt["n"], flush=True)

    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(root)


main()
