"""Calls of string functions for C02."""
import itertools

from strings_ import ASKED, FUNCTIONS, METHODS

ALL = sorted(set(FUNCTIONS) - {"streval"}) + sorted(METHODS)


def kind(f):
    return next((x for x, fs in ASKED.items() if f in fs), "")


def q(f, a, b="", c="", n=0, m=0):
    return {"f": f, "a": a, "b": b, "c": c, "n": n, "m": m}


def texts(alphabet, length):
    return ["".join(t) for n in range(length + 1) for t in itertools.product(alphabet, repeat=n)]


PIECES = ["{{{b}}}", "{{{c}}}", "{{{i}}}", "{{{zz}}}", "{{{}}}", "{{{", "}}}", "{b}", "{{c}}", "{", "}", "b", " ", "{{{ b }}}"]


def templates(rng, n):
    """texts with names of variables in braces"""
    for k in range(4):
        for t in itertools.product(PIECES, repeat=k):
            if k < 3 or rng.random() < n:
                yield q("streval", "".join(t), rng.choice(("", "x", "b", "{{{c}}}", "{{{b}}}", "{{{", "long text")), rng.choice(("", "y", "{", "}}}")), rng.randrange(-20, 400))


def every(rng, keep):
    """all calls with short texts; keep is the share taken of the larger families"""
    short, mid, tiny = texts("ab", 3), texts("ab ", 3), texts("ab", 2)
    for f in ALL:
        k = kind(f)
        if k == "":
            for a in mid + texts(" aB", 4)[::3]:
                yield q(f, a)
        elif k == "b":
            for a in mid:
                for b in tiny + [" ", "aab", "b a", "abab"]:
                    if rng.random() < keep:
                        yield q(f, a, b)
        elif k == "bn":
            for a in short:
                for b in tiny:
                    for n in range(0, 5):
                        if rng.random() < keep:
                            yield q(f, a, b, n=n)
        elif k == "n":
            for a in mid:
                for n in range(-1, 5):
                    yield q(f, a, n=n)
        elif k == "nm":
            for a in short:
                for n in range(0, 4):
                    for m in range(0, 5):
                        yield q(f, a, n=n, m=m)
        elif k == "bc":
            for a in texts("ab", 4):
                for b in tiny:
                    for c in tiny:
                        if b and rng.random() < keep * 1.5:
                            yield q(f, a, b, c)
        elif k == "k":
            for a in mid:
                for b in "ab x":
                    yield q(f, a, b)
        elif k == "kn":
            for a in short:
                for b in "a .":
                    for n in range(0, 6):
                        yield q(f, a, b, n=n)


WORDS = ["the quick brown fox", "aaaaaaa", "abababab", "A,B,,C,", "Mixed Case 123", "  padded  ", "x", "", "semi;colon", "tick'tock", "%d %s", "{}[]()", "a.b.c", "0", "-1", "true", "\"quoted\"", "back\\slash"]


def random_text(rng):
    if rng.random() < 0.4:
        return rng.choice(WORDS)
    return "".join(rng.choice("aabbAB ,.z;09_-+") for _ in range(rng.randint(0, 12)))


def piece(rng, a):
    """often a part of a"""
    if a and rng.random() < 0.6:
        i = rng.randrange(len(a))
        return a[i:i + rng.randint(1, 3)]
    return random_text(rng)[:3]


def some(rng, n):
    for _ in range(n):
        f = rng.choice(ALL)
        k = kind(f)
        a = random_text(rng)
        b = piece(rng, a)
        if k in ("k", "kn"):
            b = (b or "z")[0]
        if f in ("SplitBy", "ReplaceAll") and not b:
            b = ","
        yield q(f, a, b, random_text(rng)[:4], rng.randint(-1 if k == "n" else 0, len(a) + 2), rng.randint(0, len(a) + 1))
