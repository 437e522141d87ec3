"""check <property> [quick|thorough]   |   check --replay <file>"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import engine  # noqa: E402
import formula  # noqa: E402
import checks  # noqa: E402
import wrap  # noqa: E402
import ops  # noqa: E402
import sched  # noqa: E402

GROUP = {
    "C17": ["SMAIndicator", "EMAIndicator", "WMAIndicator", "KAMAIndicator"],
    "C18": ["MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator", "TRIXIndicator",
            "TSIIndicator", "MassIndex", "STCIndicator"],
    "C19": ["RSIIndicator", "StochRSIIndicator", "StochasticOscillator", "WilliamsRIndicator",
            "UltimateOscillator", "AwesomeOscillatorIndicator", "ROCIndicator"],
    "C20": ["ADXIndicator", "VortexIndicator", "AroonIndicator"],
    "C21": ["CCIIndicator", "DPOIndicator", "KSTIndicator", "IchimokuIndicator"],
    "C22": ["PSARIndicator"],
    "C23": ["AverageTrueRange", "BollingerBands", "KeltnerChannel", "DonchianChannel", "UlcerIndex"],
    "C24": ["AccDistIndexIndicator", "OnBalanceVolumeIndicator", "VolumePriceTrendIndicator",
            "NegativeVolumeIndexIndicator"],
    "C25": ["ChaikinMoneyFlowIndicator", "ForceIndexIndicator", "EaseOfMovementIndicator",
            "MFIIndicator", "VolumeWeightedAveragePrice"],
    "C26": ["DailyReturnIndicator", "DailyLogReturnIndicator", "CumulativeReturnIndicator"],
}
GEN = {
    "C01": lambda t, s: checks.g01(t, s) + wrap.g01w(t),
    "C02": lambda t, s: checks.g02(t, s) + wrap.g02w(t),
    "C03": lambda t, s: checks.g03(t, s) + wrap.g03w(t),
    "C04": ops.g04,
    "C05": sched.g05,
    "C06": checks.g06,
    "C07": lambda t, s: checks.g07(t, s) + wrap.g07w(t),
    "C08": lambda t, s: checks.g08(t, s) + wrap.g08w(t),
    "C09": checks.g09,
    "C10": wrap.g10,
    "C11": checks.g11, "C12": checks.g12, "C13": checks.g13, "C14": checks.g14, "C15": checks.g15,
    "C16": wrap.g16,
    "C27": checks.g27, "C28": checks.g28, "C29": checks.g29,
}
for _k, _v in GROUP.items():
    GEN[_k] = lambda t, s, v=_v: formula.tasks(v, t)

JUDGES = {n: getattr(checks, n) for n in dir(checks) if n.startswith("j") and callable(getattr(checks, n))}
BY_PROP = {
    "C01": [checks.j01, wrap.j01w], "C02": [checks.j02, wrap.j02w], "C03": [checks.j03, wrap.j03w],
    "C04": [ops.judge], "C05": [sched.judge], "C06": [checks.j06], "C07": [checks.j07, wrap.j07w],
    "C08": [checks.j08, wrap.j08w], "C09": [checks.j09], "C10": [wrap.j10, wrap.j10o], "C11": [checks.j11],
    "C12": [checks.j12], "C13": [checks.j13], "C14": [checks.j14], "C15": [checks.j15], "C16": [wrap.j16],
    "C27": [checks.j27], "C28": [checks.j28], "C29": [checks.j29],
}

SPACE = {
    "C01": "all histories up to the tree depth over 4 bar shapes x small parameters, every cut and an altered future; "
           "9 base trajectories at default and stepped parameters with every listed cut; gap cells; wrapper columns",
    "C02": "histories x 22 index kinds x array layouts/dtypes (float, signed, unsigned, 32-bit, object) x class, function and wrapper entry points",
    "C03": "histories (with zero, missing and infinite cells at every listed position) x layouts x every entry point",
    "C04": "sessions: every ordered pair (triples at thorough) of operations per class, all pairs of classes, all "
           "interleavings of reads of two live instances, wrapper/indicator pairs",
    "C05": "all schedules of two threads with at most 1 (thorough: 2) preemptions at line granularity; pairs on one class also at "
           "bytecode operations; every schedule in a fresh process",
    "C08": "every history length from 1 bar to the longest window + 5, per class, parameter set and wrapper",
    "C10": "wrapper x options x frames x column-name maps x index kinds; all orders of the group wrappers",
    "C16": "every frame of up to 2x2 cells over 12 boundary values, 3x2 at thorough; object/date/bool columns with "
           "every pattern of holes; every index kind",
}
ASSUME = ["CPython, numpy and pandas of the pinned environment behave as documented",
          "bars are ordinary: 0 < low <= open, close <= high, volume >= 0, finite (unless stated)",
          "values are compared with a relative tolerance of 1e-7 (rounding is not a violation)"]
RULE = ("a case is nontrivial when the enumerated history has a defined value or more than one bar; states = history "
        "prefixes (or session/schedule points) visited, transitions = bar steps, operations or executed lines")


def replay(path):
    body = json.load(open(path))
    prop, case = body["property"], body["case"]
    if prop in GROUP:
        m = formula.judge(case)
    else:
        m = None
        if "threads" in case:
            m = sched.judge(case)
        elif prop == "C04":
            m = ops.judge(dict(ops=[tuple(x) for x in case["ops"]]))
        elif "seqn" in case:
            m = wrap.j10o(case)
        elif "rows" in case:
            m = wrap.j16(case)
        elif "fn" in case:
            m = BY_PROP[prop][1](case) if prop != "C10" else wrap.j10(case)
        else:
            m = BY_PROP[prop][0](case)
    if m:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + m)
        return 1
    print("no violation")
    return 0


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--selftest"]:
        import selftest
        return selftest.main()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in GEN or tier not in ("quick", "thorough"):
        engine.die("usage: check <property> [quick|thorough]")
    t0 = time.time()
    st = engine.explore(GEN[prop](tier, seed), fresh=prop in ("C04", "C05"))
    space = SPACE.get(prop) or (
        "full trees of bars, de Bruijn paths (every word from non-initial states), 9 base trajectories with a "
        "deviation at the listed positions, every length up to the windows, parameters moved one at a time")
    return engine.finish(prop, tier, seed, t0, st, space, True, ASSUME, RULE)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
