"""Times, formats and clock readings for T01."""
import datetime

from times import ZONES

LETTERS = "YCymdeHIklMSspPAaBbhjtwuUWVGgDxFRTXrcZz%"
FORMATS = [["Y", "-", "m", "-", "d", " ", "H", ":", "M", ":", "S"], ["F", " ", "T"], ["d", ".", "m", ".", "Y", " ", "H", ":", "M"],
           ["D", " ", "R"], ["Y", "m", "d", "H", "M", "S"], ["e", " ", "b", " ", "Y", ", ", "I", ":", "M", ":", "S", " ", "p"],
           ["B", " ", "d", ", ", "Y"], ["Y", "-", "m", "-", "d"], ["y", "/", "m", "/", "d", " ", "T"], ["H", ":", "M", ":", "S", " on ", "d", ".", "m", ".", "Y"],
           ["I", " ", "p", " ", "F"], ["H", "h", "M", " ", "F"], ["d", "%", "m", "%", "Y"]]


def items(f):
    return [{"d": i} if (len(i) == 1 and i in LETTERS and not (i in "h%")) else {"d": "%"} if i == "%" else {"l": i} for i in f]


def stamp(y, m, d, h=0, mi=0, s=0):
    return int(datetime.datetime(y, m, d, h, mi, s, tzinfo=datetime.timezone.utc).timestamp())


def moments(z, rng, n):
    """ends of days, months and years, changes of summer time, random ones"""
    for y in (1971, 1972, 1976, 1999, 2000, 2001, 2015, 2020, 2024, 2026, 2032) + (() if z["dname"] else (1903, 1969)):
        for m in range(1, 13):
            for t in (stamp(y, m, 1), stamp(y, m, 1) - 1, stamp(y, m, 13 + m % 4, 11 + m % 2, 59, 59), stamp(y, m, 28, 12), stamp(y, m, 28) + 86399):
                yield t - z["off"]
        if z["dname"]:
            for m in (z["sm"], z["em"]):
                for d in range(1, 28 + 4):
                    try:
                        t = stamp(y, m, d, 2)
                    except ValueError:
                        continue
                    if datetime.date(y, m, d).weekday() == 6:
                        for o in (-3601, -3600, -1, 0, 1800, 3599, 3600, 7200):
                            yield t - z["off"] + o
    for _ in range(n):
        yield rng.randrange(40000000 if z["dname"] else -2000000000, 2000000000)
    for t in (1, 59, 60, 3600, 86399, 86400):
        if not z["dname"]:
            yield t
            yield -t


def writes(rng, n):
    for z in ZONES:
        ts = sorted(set(moments(z, rng, n)) - {0})
        for i, t in enumerate(ts):
            yield {"k": "write", "z": z, "t": t, "f": items(["Y", "-", "m", "-", "d", " ", "H", ":", "M", ":", "S", " ", "Z", " ", "z"])}
            for x in range(4):
                yield {"k": "write", "z": z, "t": t, "f": items(["<", LETTERS[(4 * i + x) % len(LETTERS)], ">"])}
            if i % 9 == 0:
                f = [rng.choice([rng.choice(LETTERS), rng.choice((" ", ":", "at ", "(", "100", "ä"))]) for _ in range(rng.randrange(9))]
                yield {"k": "write", "z": z, "t": t, "f": items(f)}
        for x in LETTERS:
            for t in rng.sample(ts, 4):
                yield {"k": "write", "z": z, "t": t, "f": items([x])}


def reads(rng, n):
    def q(z, f, c, cut=None):
        return {"k": "read", "z": z, "f": items(f), "n": len(f) if cut is None else cut,
                "c": dict(zip("YmdHMS", c), w=0, j=0, o=0, z="")}
    for z in ZONES:
        low = 1971
        for f in FORMATS:
            for y in (low, 1972, 1999, 2000, 2004, 2026, 2030):
                for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (4, 30), (7, 15), (9, 9), (12, 31)):
                    for h, mi, s in ((0, 0, 0), (11, 59, 59), (12, 0, 0), (23, 7, 30)):
                        if (y + m + d + h + mi) % 3 == 0 or f is FORMATS[0]:
                            yield q(z, f, (y, m, d, h, mi, s))
            # nothing, too little, and numbers that do not exist
            good = (2026, 7, 15, 13, 45, 10)
            for cut in range(len(f)):
                yield q(z, f, good, cut)
            for bad in ((2026, 13, 15, 13, 45, 10), (2026, 7, 32, 13, 45, 10), (2026, 7, 0, 13, 45, 10), (2026, 0, 15, 13, 45, 10), (2026, 7, 15, 24, 45, 10),
                        (2026, 7, 15, 13, 60, 10), (2026, 7, 15, 13, 45, 62), (2026, 7, 15, 99, 45, 10)):
                if not (bad[1] not in range(1, 13) and set(f) & set("bBh")) and not (bad[3] > 23 and "I" in f):
                    yield q(z, f, bad)
        for _ in range(n):
            y, m = rng.randrange(low, 2033), rng.randrange(1, 13)
            yield q(z, rng.choice(FORMATS), (y, m, rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)))
