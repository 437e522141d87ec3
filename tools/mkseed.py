"""Writes /verif/seeded/<id>/ from a table of planted bugs, after confirming each one in a scratch copy.

usage: mkseed.py TABLE.py [ID ...]    (TABLE.py defines B = [(id, property, edits, demo, needs, breaks)])
edits: [(file, old, new), ...]; old must occur once (or give (file, old, new, k) for the k-th occurrence)
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

PY = "/opt/venv/bin/python"
HEAD = '''import math, os, sys, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd
import ta


def S(*a, **k):
    return pd.Series([float(x) for x in a], **k)


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def walk(n, seed=7, start=100.0):
    """deterministic integer-step walk: open, high, low, close, volume"""
    x, c, rows = seed, start, []
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2 ** 31
        d = ((x >> 8) % 9) - 4
        o, c = c, max(5.0, c + d)
        x = (x * 1103515245 + 12345) % 2 ** 31
        rows.append((o, max(o, c) + (x >> 9) % 3, min(o, c) - (x >> 12) % 3, c, 1000.0 + 10 * ((x >> 15) % 50)))
    return pd.DataFrame(rows, columns=["Open", "High", "Low", "Close", "Volume"])


'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def tests(root):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "python_files=*.py", "test/unit"],
                       cwd=root, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    bad = sorted(l.split()[1] for l in r.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR"))
    return [b for b in bad if "TSI" not in b], r.stdout


def main():
    table = runpy.run_path(sys.argv[1])["B"]
    want = set(sys.argv[2:])
    root = tempfile.mkdtemp(prefix="seedw.")
    try:
        for id_, prop, edits, demo, needs, breaks in table:
            if want and id_ not in want:
                continue
            w = os.path.join(root, "repo")
            if os.path.exists(w):
                shutil.rmtree(w)
            subprocess.check_call(["git", "clone", "-q", "/repo", w])
            dest = os.path.join("/verif/seeded", id_)
            os.makedirs(dest, exist_ok=True)
            with open(dest + "/demo.py", "w") as f:
                f.write(HEAD + demo.strip("\n") + "\n")
            with open(dest + "/demo.sh", "w") as f:
                f.write(SH)
            os.chmod(dest + "/demo.sh", 0o755)
            d0 = subprocess.run(["bash", dest + "/demo.sh"], cwd=w, capture_output=True, text=True)
            err = None
            for e in edits:
                fn, old, new = e[:3]
                k = e[3] if len(e) > 3 else None
                p = os.path.join(w, fn)
                s = open(p).read()
                if k is None:
                    if s.count(old) != 1:
                        err = f"{fn}: old occurs {s.count(old)} times: {old!r}"
                        break
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(p, "w").write(s)
            if err is None:
                diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
                bad, _ = tests(w)
                d1 = subprocess.run(["bash", dest + "/demo.sh"], cwd=w, capture_output=True, text=True)
                if d0.returncode:
                    err = "demo fails unpatched: " + d0.stdout + d0.stderr[-500:]
                elif bad:
                    err = "tests fail: " + " ".join(bad[:4])
                elif d1.returncode == 0:
                    err = "demo passes with the patch"
            if err:
                print(f"{id_}: REJECTED: {err}", flush=True)
                shutil.rmtree(dest)
                continue
            with open(dest + "/patch.diff", "w") as f:
                f.write(diff)
            with open(dest + "/meta.json", "w") as f:
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
            print(f"{id_}: ok  ({(d1.stdout or d1.stderr).strip().splitlines()[-1][:110]})", flush=True)
    finally:
        shutil.rmtree(root)


main()
