"""mini.py PROP[,PROP...] CLASS[,CLASS...]: the quick tasks of some classes only, one process, stop at the first violation.
Prints 'CAUGHT <prop> <message>' or 'MISSED'. Used by mutate.py on scratch copies (TA_ROOT)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import engine  # noqa: E402
import main  # noqa: E402


def classes_of(args):
    return {a for a in args if isinstance(a, str)}


def run(prop, want, tier="quick"):
    if prop in main.GROUP:
        import formula
        tasks = formula.tasks([c for c in main.GROUP[prop] if not want or c in want], tier)
    else:
        tasks = main.GEN[prop](tier, 1)
        import reg
        names = {c.name for c in reg.CLASSES}
        if want:
            tasks = [t for t in tasks if not (classes_of(t[1]) & names) or classes_of(t[1]) & want or
                     ("ops" in str(t[1])[:0])]
            if prop not in ("C10", "C16"):
                tasks = [t for t in tasks if t[0].__name__ not in ("t_wrap", "t_session") or want & set(
                    str(t[1]).replace("'", " ").replace('"', " ").split())]
    for t in tasks:
        _, viol, _ = engine._run(t)
        if viol:
            return viol[0][1]
    return None


if __name__ == "__main__":
    want = set(sys.argv[2].split(",")) if len(sys.argv) > 2 and sys.argv[2] else set()
    for p in sys.argv[1].split(","):
        m = run(p, want)
        if m:
            print("CAUGHT", p, m[:200].replace("\n", " "))
            sys.exit(0)
    print("MISSED")
