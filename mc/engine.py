"""Exploration driver: a check is a list of tasks; each task enumerates cases and judges every one
of them.  Cases are JSON-able, so a violation is replayable on its own."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Stats:
    __slots__ = ("n", "viol", "samples")

    def __init__(self):
        self.n = collections.Counter()
        self.viol = []
        self.samples = []

    def add(self, key, k=1):
        self.n[key] += k

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def bad(self, case, msg, key=None):
        self.viol.append((case, msg, key or ""))


MAXV = 2        # a task stops after this many violations


class Stop(Exception):
    pass


def _run(job):
    fn, args = job
    st = Stats()
    try:
        fn(st, *args)
    except Stop:
        pass
    except Exception:
        st.viol.append(({"task": [fn.__name__, repr(args)[:300]]},
                        "harness task failed: " + traceback.format_exc(limit=6), "harness"))
    return st.n, st.viol, st.samples


def explore(tasks, jobs=None, fresh=False):
    """run every task (fresh: each in a process of its own); returns merged Stats"""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    tot = Stats()
    if (jobs == 1 or len(tasks) <= 1) and not fresh:
        it = map(_run, tasks)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=1 if fresh else None)
        it = pool.imap_unordered(_run, tasks, chunksize=1)
    for n, v, s in it:
        tot.n.update(n)
        tot.viol.extend(v)
        if len(tot.samples) < 8:
            tot.samples.extend(s)
    if pool:
        pool.close()
        pool.join()
    return tot


def known(prop):
    """known findings: lines 'known: property=<id> key=<key> <text>'"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                k = line.split(" key=", 1)[1].split(" ", 1)
                out[k[0]] = k[1].strip()
    return out


def finish(prop, tier, seed, t0, st, space, exhaustive, assumptions, rule):
    kn = known(prop)
    hit, new = {}, []
    for case, msg, key in sorted(st.viol, key=lambda x: len(json.dumps(x[0], default=str))):
        if key in kn:
            hit[key] = msg
        else:
            new.append((case, msg, key))
    for key in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[key]))
    cov = {
        "states": int(st.n["states"]),
        "transitions": int(st.n["transitions"]),
        "traces_validated_against_impl": int(st.n["traces"]),
        "distinct_nontrivial": int(st.n["nontrivial"]),
        "rule": rule,
        "samples": st.samples[:6],
        "exhaustive": bool(exhaustive),
        "space": space,
        "counters": {k: int(v) for k, v in sorted(st.n.items())
                     if k not in ("states", "transitions", "traces", "nontrivial")
                     and not (k == "evaluations" and v == st.n["traces"])},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if not new:
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
            ev["wall_s"]))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for case, msg, key in new[:5]:
        body = json.dumps({"property": prop, "case": case, "observed": msg}, indent=1, default=str)
        name = "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10])
        path = os.path.join("replays", name)
        with open(os.path.join(VERIF, path), "w") as f:
            f.write(body + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + msg.replace("\n", "\n  "))
    print("violations found: %d" % len(new))
    return 1


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)
