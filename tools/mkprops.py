"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = dict(m="ta/momentum.py", t="ta/trend.py", v="ta/volatility.py", o="ta/volume.py", r="ta/others.py",
         w="ta/wrapper.py", u="ta/utils.py")
ALLF = list(F.values())
T = "Existing tests compare one or two lines per indicator with one spreadsheet of about 30 to 1000 bars at one parameter set; "

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[F[x] for x in files],
                  mech=mech, technique=technique, note=note, state=state))


REL = ("exhaustive enumeration of bar histories (full trees, de Bruijn paths, deviations) executed on the real code, "
       "with a relational oracle between executions")
MOD = ("explicit-state exploration of a streaming reference machine with every enumerated trace replayed on the real code")
EXH = "The tree, path and deviation spaces are visited completely within the stated bounds; beyond them nothing is claimed."

prop("C01", "No line at a bar depends on later bars",
     "For every indicator and every wrapper column, the value published at a bar is the same whether the history stops at that bar or goes on, and whatever comes later (also when values are missing in the data). "
     "The only exception is filling, when requested, of leading rows that have nothing to carry forward: the shifted Donchian and Ichimoku lines, the two one-sided Parabolic SAR lines, and channel lines of data whose first bars are missing may be back-filled.",
     ["histories", "inputs", "configurations"],
     "every history, every cut point, every continuation, every parameter set, filling on or off",
     T + "none compares a history with a prefix of itself, so look-ahead that keeps the sampled values is invisible.",
     "mtvorwu", [("rolling and exponentially weighted windows over past bars", "ta/utils.py:_sma,_ema"),
                 ("shift by positive offsets only", "ta/trend.py, ta/volatility.py")],
     "prefix/continuation model checking: all cuts of all enumerated histories, run on the real code", EXH)
prop("C02", "Results sit on the caller's index and ignore labels, names and layout",
     "Every line is returned as a series with exactly the caller's index (same length, order, labels and date frequency) and its published name, unless dropping of leading gaps was asked for. "
     "Its values depend only on the order and numeric values of the bars: any kind of index (dates, strings, duplicates, descending, floats, multi-level), signed, unsigned or narrow integer instead of float data, other series names, strided or read-only arrays give the same values, through classes, functions and wrappers.",
     ["inputs", "configurations"],
     "every index kind, dtype and array layout times every enumerated history, class, function and wrapper",
     T + "the test data always has a default or a date index and float columns.",
     "mtvorwu", [("positional access in loops", "ta/trend.py PSAR and ADX, ta/volatility.py ATR"),
                 ("series rebuilt on the index of the close", "ta/trend.py, ta/momentum.py")],
     REL, EXH)
prop("C03", "Inputs are never modified",
     "Computing any indicator, function or wrapper leaves the values, index, dtype, name and attributes of the caller's series and of the caller's existing frame columns exactly as they were, also when the data contains zeros, missing or infinite values and also when the call fails. "
     "A returned series never shares memory with a series the caller passed in.",
     ["inputs", "histories"],
     "every entry point, every enumerated history including ones with zero, missing and infinite cells at each listed position",
     T + "no test looks at the inputs after a call.",
     "mtvorwu", [("new series are derived, never written in place", "ta/*.py"), ("copy before cleaning", "ta/utils.py:dropna")],
     REL, EXH)
prop("C04", "Results depend only on the arguments of the call, not on earlier calls",
     "Whatever indicators, functions, wrappers or frame cleaning ran before in the process (on the same or other data, parameters or filling, also on series objects that were rewritten in place), every result is the one its own arguments define. "
     "Reading the lines of an indicator any number of times, in any order, interleaved with another live indicator of the same kind, gives the same values each time, and no call changes process-wide numeric, random, warning or display settings.",
     ["histories"],
     "every ordered pair (thorough: triple) of operations per class, every pair of classes, every interleaving of reads of two instances",
     T + "each test builds one instance and reads each line once.",
     "mtvorwu", [("state lives in instances only", "ta/*.py __init__/_run"), ("fillna flag is an instance attribute over a class default", "ta/utils.py:IndicatorMixin")],
     "explicit enumeration of operation sequences (de Bruijn sessions) on the real code against the reference machines", EXH)
prop("C05", "Concurrent calls do not influence each other",
     "When two threads compute indicators, functions, wrappers or frame cleaning at the same time, on the same or on different data, or read the lines of one indicator object, each call returns exactly what it returns alone, under every interleaving.",
     ["schedules"],
     "every schedule of two threads with at most one (thorough: two) preemptions at source-line granularity, and at bytecode operations for pairs on one class, each in a fresh process",
     T + "nothing in the tests runs two threads.",
     "mtvorwu", [("no module-level or class-level mutable state", "ta/*.py")],
     "stateless model checking of thread schedules of the real code under a controlled scheduler with a preemption bound",
     "Exhaustive in the preemption bound at line (and, for pairs on one class, bytecode operation) granularity; switches inside numpy/pandas native code are not modelled.")
prop("C06", "Nothing is published before its window is full",
     "Without filling, a line is undefined (zero for average true range and the directional index lines) at every bar before its windows hold enough bars, and on ordinary bars it is defined at every bar from then on. "
     "From the third bar on exactly one of the two Parabolic SAR stop lines is defined.",
     ["histories", "configurations"],
     "every history, parameter set and bar index",
     T + "they compare the tail of the series or skip missing rows.",
     "mtvorwu", [("min_periods of the windows", "ta/utils.py:_sma,_ema and each _run")],
     REL, EXH)
prop("C07", "Filling leaves no gap, uses the neutral value, and keeps defined values",
     "With filling requested, every published value of every line and wrapper column is finite for any history with at least one bar: a gap repeats the previous value of the line, and leading gaps take the published neutral value of the line. "
     "For lines that look at a fixed number of recent bars, filling changes no value that is defined without filling once the window is full.",
     ["histories", "configurations"],
     "every history (flat prices, zero volume, single bars, spikes), parameter set and bar",
     T + "filling is exercised on one history without gaps in the middle.",
     "mtvorwu", [("forward fill, then neutral value", "ta/utils.py:_check_fillna")],
     MOD, EXH)
prop("C08", "Any history of at least one bar is accepted",
     "Every class, function and wrapper accepts any history of one bar or more, also shorter than its windows, on any index, with filling on or off, without raising, and returns as many rows as bars.",
     ["inputs", "configurations"],
     "every length from one bar to beyond the longest window, per class, function and wrapper, over parameter sets",
     T + "every test history is longer than every window.",
     "mtvorwu", [("loops and slices guarded by the length", "ta/trend.py ADX, ta/volatility.py ATR")],
     REL, EXH)
prop("C09", "The function form of a line equals its class",
     "Each function returns, bar for bar, what the class accessor returns for the same arguments, by keyword, in the published positional order, and with the published defaults when arguments are left out.",
     ["inputs", "configurations"],
     "every function, history and parameter set, filling on or off",
     T + "functions and classes are each tested on the same single history with default-like parameters.",
     "mtvor", [("functions construct the class and call the accessor", "ta/momentum.py, ta/trend.py, ta/volatility.py, ta/volume.py, ta/others.py")],
     REL, EXH)
prop("C10", "Wrappers add exactly the published columns with the right values",
     "Each wrapper adds exactly its published set of prefixed columns (only the vectorised ones when asked for), each equal to the corresponding indicator with the published parameters computed from the columns the caller named, with the requested filling. "
     "The caller's other columns and the rows stay as they are, and the result does not depend on the order of wrapper calls, on column order, extra columns, or columns of the same name that were already there.",
     ["inputs", "configurations", "histories"],
     "every wrapper, option combination, column naming, index kind, enumerated history, and every order of wrapper calls",
     T + "the wrapper tests only check that a call succeeds on one file or look at one option.",
     "w", [("column assignments", "ta/wrapper.py")], REL, EXH)
prop("C11", "Results scale with the units of price and volume",
     "Multiplying all prices by a positive factor scales price-valued lines by that factor and leaves ratio, percentage and oscillator lines unchanged; multiplying all volumes by a positive factor scales volume-valued lines by it and leaves the others unchanged (ease of movement scales with price squared over volume, force index with both). "
     "This holds for very small and very large units alike.",
     ["inputs"], "every history and parameter set, factors from 2^-30 to 2^30",
     T + "all test prices are of one magnitude, so absolute thresholds go unseen.",
     "mtvor", [("formulas are homogeneous", "ta/*.py")], REL, EXH)
prop("C12", "Bounded lines stay within their bounds",
     "Every oscillator with a published range stays inside it (RSI, stochastics, ultimate oscillator, money flow index, Aroon, directional index, Schaff cycle, Williams %R, TSI, Chaikin money flow, the band flags, ...), averages and channel middle lines stay within the extremes of the prices they average, ranges and widths are never negative, and returns never fall below -100%. "
     "Outside of reversal bars the Parabolic SAR stop is never above the low of the bar or of the two bars before in an up-trend, nor below those highs in a down-trend.",
     ["histories", "configurations"], "every history, parameter set and bar, filling on or off",
     T + "ranges are not asserted at all.",
     "mtvor", [("normalisation by the extremes of the same window", "ta/momentum.py, ta/trend.py, ta/volume.py")], REL, EXH)
prop("C13", "Band lines, widths, positions and flags agree with each other",
     "For Bollinger, Keltner and Donchian channels, at every bar: lower <= middle <= upper with the middle half way between them, all three defined or none, width equal to 100 times (upper - lower) over the middle line (over the mean close for Donchian), position equal to (close - lower)/(upper - lower). "
     "The upper (lower) flag is 1 exactly where the close is above the upper (below the lower) line, and 0 otherwise.",
     ["histories", "configurations"], "every history, parameter set and bar, filling on or off",
     T + "each line is compared with its own spreadsheet column only.",
     "v", [("one _run computes the lines the accessors share", "ta/volatility.py")], REL, EXH)
prop("C14", "Up and down moves are treated symmetrically",
     "On mirrored prices (every price replaced by a constant minus itself, high and low exchanged) each direction-aware line mirrors: oscillators reflect about their centre, differences change sign, plus and minus lines swap, averages and bands reflect, and ranges and trend strength stay the same. "
     "The only one-sided convention is that an index over no price change at all counts as 100.",
     ["histories"], "every history and parameter set of the mirrored indicators",
     T + "the sampled histories exercise ties and extremes of one side only.",
     "mtvo", [("paired up/down branches", "ta/momentum.py, ta/trend.py, ta/volume.py")], REL, EXH)
prop("C15", "Windowed lines forget bars older than their window",
     "A line defined over a fixed number of recent bars (simple and weighted averages, stochastics, Williams %R, ultimate and awesome oscillators, rate of change, Aroon, vortex, CCI, DPO, KST, Ichimoku, Bollinger and Donchian lines, Chaikin and money flow, volume-weighted price, ease of movement, daily returns, and the ulcer index over two windows) does not change at a bar when older bars are changed, removed, reordered or missing.",
     ["histories", "configurations"], "every history, parameter set, bar and change of the older bars",
     T + "no test changes old bars.",
     "mtvor", [("rolling windows with the published length", "ta/*.py")], REL, EXH)
prop("C16", "Frame cleaning drops exactly the rows with unusable cells",
     "Cleaning a frame returns a new frame with exactly the rows, in order and with their labels, whose numeric cells are all present, non-zero and below e^709 and whose other cells are all present; every kept cell and every column is unchanged. "
     "The caller's frame is not modified.",
     ["inputs"], "every frame of the enumerated shapes over boundary values, column types and index kinds",
     T + "one test on one file counts the remaining rows.",
     "u", [("comparison masks and dropna on a copy", "ta/utils.py:dropna")],
     "exhaustive small-scope enumeration of frames run through the real code against an executable row rule", EXH)
prop("C17", "Moving averages equal their definitions",
     "At every bar, the simple average is the mean of the last w closes, the exponential average follows e = e' + 2/(w+1)(close - e') from the first close, the weighted average uses weights 1..w rising to the newest close, and Kaufman's average starts at the close of bar w-1 and moves by the squared smoothing constant ER*(2/(fast+1)-2/(slow+1))+2/(slow+1) towards the close, with ER the net over the total absolute change of the last w bars.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other parameters, ties, flat stretches and short windows are never compared.",
     "mtu", [("_sma, _ema", "ta/utils.py"), ("KAMAIndicator._run", "ta/momentum.py"), ("WMAIndicator._run", "ta/trend.py")], MOD, EXH)
prop("C18", "Moving-average oscillators equal their definitions",
     "At every bar MACD, PPO and PVO are the difference (for PPO and PVO in percent of the slow one) of the fast and slow exponential averages of close or volume, their signal the exponential average of the line and the histogram line minus signal; TRIX is the one-bar percent change of the triple exponential average. "
     "TSI is 100 times the twice smoothed change over the twice smoothed absolute change of the close, the mass index sums the ratio of the single to the double smoothed high-low range over the slow window, and the Schaff cycle is the twice repeated, smoothed stochastic of the MACD line.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other parameters, ties and flat stretches are never compared; the TSI tests do not run at this commit.",
     "mtu", [("_run of each class", "ta/trend.py, ta/momentum.py")], MOD, EXH)
prop("C19", "Momentum oscillators equal their definitions",
     "At every bar RSI is Wilder's 100 - 100/(1+average gain/average loss) (100 when there is no loss) and the stochastic RSI its position in its window's range, smoothed twice; the stochastic oscillator and Williams %R give the close's position in the window's high-low range, with the signal the mean of the last values. "
     "The ultimate oscillator is the weighted mean of buying pressure over true range in three windows, the awesome oscillator the difference of two averages of the bar midpoints, and the rate of change the percent change over w bars.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other parameters, ties and flat stretches are never compared.",
     "mu", [("_run of each class", "ta/momentum.py")], MOD, EXH)
prop("C20", "Directional indicators equal their definitions",
     "At every bar the plus/minus directional lines and the average directional index follow Wilder's recursion on directional movement and range, the vortex lines are the sums of |high - previous low| and |low - previous high| over the sum of true ranges, and Aroon up/down are 100*(w - bars since the highest high/lowest low of the last w+1 bars)/w.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other windows, ties and short histories are never compared.",
     "tu", [("ADXIndicator, VortexIndicator, AroonIndicator", "ta/trend.py")], MOD, EXH)
prop("C21", "CCI, DPO, KST and Ichimoku lines equal their definitions",
     "At every bar CCI is the typical price's deviation from its mean over constant times the mean absolute deviation, DPO the close w/2+1 bars ago minus the current simple average, KST the sum of four smoothed rates of change weighted 1 to 4 with its signal a simple average. "
     "Ichimoku's conversion, base and B lines are midpoints of the high-low extremes of their windows and A the mean of conversion and base, with A and B shifted forward by the base window when the visual form is asked for.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other windows and the visual form are never compared bar by bar.",
     "tu", [("CCIIndicator, DPOIndicator, KSTIndicator, IchimokuIndicator", "ta/trend.py")], MOD, EXH)
prop("C22", "Parabolic SAR follows its state machine",
     "At every bar the stop, the active side, the extreme point and the acceleration follow Wilder's automaton: the stop moves towards the extreme by the acceleration, is held behind the last two lows (highs), flips to the extreme when the price crosses it, and the acceleration grows by one step per new extreme up to its maximum and restarts at a flip. "
     "The up and down lines show the stop on the active side and the indicators mark exactly the bars where a side becomes active after the other.",
     ["histories", "configurations"], "every history of ordinary bars and every step/maximum pair, filling on or off",
     T + "one upward-drifting file exercises few reversals and never ties at the stop.",
     "t", [("PSARIndicator._run", "ta/trend.py")], MOD, EXH,
     state=[("trend side, acceleration, extreme points", "automaton state", "ta/trend.py PSARIndicator._run")])
prop("C23", "Volatility lines equal their definitions",
     "At every bar average true range follows Wilder's smoothing started with the mean of the first w true ranges, Bollinger bands are the mean plus/minus d population standard deviations of w closes, and Donchian lines the extremes of w highs and lows and their midpoint, shifted by the offset. "
     "Keltner lines are means of typical prices (original) or an exponential average plus/minus a multiple of average true range, the ulcer index the root mean square percent drawdown from the window's running maximum, and widths, positions and flags follow from these lines.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set, filling on or off",
     T + "other parameters, offsets, ties and flat stretches are never compared.",
     "vu", [("_run of each class", "ta/volatility.py"), ("_true_range", "ta/utils.py")], MOD, EXH)
prop("C24", "Cumulative volume lines equal their recursions",
     "At every bar accumulation/distribution adds volume times the close location value (0 when high equals low), on-balance volume adds, subtracts or keeps the volume by the direction of the close, volume-price trend accumulates volume times the relative close change (optionally averaged, optionally without the leading gap), and the negative volume index starts at 1000 and moves by the close change exactly on bars with lower volume.",
     ["histories", "configurations"], "every history of ordinary bars including zero volume and ties, filling on or off",
     T + "ties, zero volumes and doji bars hardly occur in the test files.",
     "o", [("cumulative sums and the index loop", "ta/volume.py")], MOD, EXH)
prop("C25", "Windowed volume lines equal their definitions",
     "At every bar Chaikin money flow is the w-bar sum of money flow volume over the sum of volume, the force index the exponential average of close change times volume, ease of movement 10^8 times (midpoint change in halves) times range over (twice) the volume with its w-bar mean, money flow index 100 - 100/(1 + up flow/down flow) of typical price times volume over w bars, and the volume-weighted price the w-bar sum of typical price times volume over volume.",
     ["histories", "configurations"], "every history of ordinary bars including zero volume and ties, and every window, filling on or off",
     T + "ties, zero volumes and doji bars hardly occur in the test files.",
     "o", [("_run of each class", "ta/volume.py")], MOD, EXH)
prop("C26", "Return lines equal their definitions",
     "At every bar the daily return is the percent change from the previous close, the daily log return 100 times the log of their ratio, and the cumulative return the percent change from the first close of the history.",
     ["histories"], "every history of positive closes, filling on or off",
     T + "a single rising file is compared.",
     "r", [("_run of each class", "ta/others.py")], MOD, EXH)
prop("C27", "Related lines agree with each other",
     "Difference and histogram lines equal line minus signal (MACD, PPO, PVO, KST) or plus minus minus (Aroon, vortex), Williams %R equals the stochastic oscillator minus 100, Ichimoku A is the mean of conversion and base lines, compounding the daily returns gives the cumulative return, and one-bar rate of change equals the daily return. "
     "The Parabolic SAR line is the one of its two sides that is defined, and a flip is flagged exactly where the defined side changes.",
     ["histories", "configurations"], "every history of ordinary bars and every parameter set",
     T + "each line is compared with its own spreadsheet column only.",
     "mtor", [("shared intermediate series of one instance", "ta/trend.py, ta/momentum.py, ta/others.py")], REL, EXH)
prop("C28", "A window that holds a missing bar publishes nothing",
     "Without filling, a line over a fixed number of recent bars is undefined at every bar at which one of the bars its definition uses is missing (all its cells empty), and has its defined value at every other bar once its window is full: no average, extreme, sum or band is ever computed from part of a window, and missing bars are neither skipped over nor replaced by neighbouring ones. "
     "(In the money flow index the bar right after a missing one counts as unchanged.)",
     ["histories", "inputs", "configurations"],
     "every enumerated history with missing bars at every position, every parameter set of the fixed-window lines",
     T + "the files have no missing bars.",
     "mtvor", [("rolling windows with min_periods equal to the window", "ta/utils.py:_sma and the rolling calls of each indicator")], MOD, EXH)
prop("C29", "Adding a constant to all prices only shifts price-level lines",
     "Raising every price by one constant raises averages, bands, channel lines, Ichimoku lines, volume-weighted prices and the Parabolic SAR by that constant, and leaves lines made of price differences and positions unchanged (RSI, TSI, MACD, stochastics, Williams %R, ultimate and awesome oscillators, Aroon, directional index, vortex, CCI, DPO, Schaff cycle, mass index, true range, money flow multipliers, force index, ease of movement, band positions and flags).",
     ["inputs", "configurations"], "every enumerated history and parameter set, shifts that keep rounding exact on the small-integer histories",
     T + "no test runs an indicator on two related histories.",
     "mtvo", [("formulas use differences of prices", "ta/*.py")], REL, EXH)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": ["returned Series / DataFrame columns"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./check --selftest", "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
         "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
        "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
