"""setup: the machinery itself is sane (registry complete, models answer, alphabets are in the domain)"""
import api  # noqa: F401  (the library imports)
import formula
import hist
import model
import reg
import wrap


def main():
    n = 0
    for c in reg.CLASSES:
        for al in formula.alphabets(c):
            assert hist.valid(al) and hist.is_exact(al), c.name
            n += 1
        model.run(c, c.full(**c.grid[0]), False, formula.alphabets(c)[0], True, 6.0)
    for b in hist.BASES:
        assert hist.valid(hist.base(b, 300)), b
    named = {c.name for c in reg.CLASSES}
    assert {r[1] for g in wrap.GROUPS for r in reg.WRAP[g]} <= named
    print("selftest ok: %d classes, %d alphabets" % (len(reg.CLASSES), n))
    return 0
