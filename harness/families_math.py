"""Calls of mathematical functions for N01."""
from fractions import Fraction as F

from maths import LAWS, ONE, TWO


def q(f, ty, *a, law=False, over=False):
    return {"f": f, "ty": ty, "a": [F(x) for x in a], "law": law, "over": over}


def exact(rng, n):
    """every function at every multiple of 1/4 up to 5 in size, and at some larger numbers"""
    grid = [F(i, 4) for i in range(-20, 21)]
    powers = [F(2) ** i for i in range(-6, 12)] + [F(10) ** i for i in range(0, 7)]
    squares = [F(i, 4) ** e for i in range(0, 25) for e in (2, 3)]
    small = [F(i, 2) for i in range(-7, 8)]
    for ty in ("double", "float"):
        for f in ONE:
            extra = {"sqrt": squares, "cbrt": squares + [-x for x in squares], "log2": powers, "logb": powers, "ilogb": powers, "log10": powers,
                     "tgamma": [F(i) for i in range(1, 10)]}.get(f, [])
            for x in grid + extra + [F(rng.randrange(-4000, 4000), 8) for _ in range(n)]:
                if f == "exp2" and abs(x) > 12:
                    continue
                if f == "tgamma" and x > 9:
                    continue
                yield q(f, ty, x)
        for f in TWO:
            if f == "hypot":
                pairs = [(F(a * s, d), F(b * t, d)) for a, b in ((3, 4), (5, 12), (8, 15), (7, 24), (20, 21), (0, 5), (6, 8)) for d in (1, 2, 4)
                         for s in (1, -1) for t in (1, -1)]
                pairs += [(b, a) for a, b in pairs]
            elif f in ("pow", "ldexp", "scalbn"):
                pairs = [(x, F(e)) for x in small for e in range(-4, 6)]
                if f == "pow":
                    # what is not a fraction of powers of two is not represented exactly
                    pairs = [(x, e) for x, e in pairs if e >= 0 or abs(x) in (F(1, 2), 1, 2)]
            else:
                pairs = [(x, y) for x in small for y in small] + [(F(rng.randrange(-400, 400), 8), F(rng.randrange(-100, 100), 8)) for _ in range(2 * n)]
            for x, y in pairs:
                yield q(f, ty, x, y)
        for _ in range(10 * n):
            yield q("fma", ty, *[F(rng.randrange(-60, 60), 4) for _ in range(3)])
        for x in grid + squares:
            yield q("abs", ty, x)
            yield q("abs", ty, -x)
            yield q("sqrt", ty, x, over=True)
            yield q("power1", ty, x)
            yield q("sqr", ty, x)
        for x in small:
            for e in range(0, 6):
                yield q("power", ty, x, e)
    for x in range(-12, 13):
        yield q("labs", "long", x)
        for e in range(0, 7):
            yield q("powl", "long", x, e)
    for x in list(range(-12, 13)) + [rng.randrange(-400000000, 400000000) for _ in range(n)]:
        yield q("abs", "int", x)
        yield q("labs", "long", x)
        if abs(x) < 40000:
            yield q("sqr", "int", x)
            yield q("power1", "int", x)
        for e in range(0, 6):
            if abs(x) < 20:
                yield q("power", "int", x, e)


def laws(rng, n):
    """every equation at multiples of 1/8 and at random places"""
    for ty in ("double", "float"):
        for f in LAWS:
            if " small" in f:
                xs = [F(i, 4096) for i in range(-8, 9) if i]
            elif ty == "float" and f in ("erf slope",):
                continue
            else:
                xs = [F(i, 8) for i in range(-24, 25)] + [F(rng.randrange(-5 * 256, 5 * 256), 256) for _ in range(n)]
                if ty == "float":
                    xs = [x for x in xs if abs(x) <= 2]
            if f.startswith("tgamma") or f.startswith("lgamma"):
                xs = [x for x in xs if x >= F(1, 4)]
            for x in xs:
                yield q(f, ty, x, law=True)
