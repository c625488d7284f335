"""Histories of file operations for F01."""
import itertools

from files import MODES, get, op, text, value

SAMPLES = [("b", True), ("b", False), ("i", 7), ("i", -1), ("i", 1731389), ("i", 2147483647), ("i", -2147483647), ("f", 1.5), ("f", -0.25), ("d", 173.125), ("d", -2.0), ("d", 0.5)]


def case(ops, api="handle"):
    return {"api": api, "ops": ops}


def fill(s="hello\nworld\n"):
    res = [op("open", 0, mode="w")]
    for n, line in enumerate(s.split("\n")):
        if n:
            res.append(op("char", 0, bytes=[10]))
        if line:
            res.append(text(0, line))
    return res + [op("close", 0)]


def fill_object(s):
    return [op("open", 0, mode="w"), text(0, s), op("close", 0)]


def moves(h=0):
    return [text(h, "xy"), op("read", h, n=3), op("all", h), op("line", h, n=20), op("line", h, n=3), op("code", h), op("char", h, bytes=[65]),
            op("seek", h, n=2), op("seek", h, n=-1, w="end"), op("seek", h, n=1, w="cur"), op("seek", h, n=-2, w="cur"), op("seek", h, n=-4, w="end"), op("char", h, bytes=[200]), op("seek", h, n=14), op("rewind", h), op("tell", h), op("eof", h), op("flush", h), op("unget", h, n=66), op("failed", h), op("clear", h)]


def modes():
    """every mode on a missing and on an existing file, with every operation first, second"""
    tail = [op("eof", 0), op("tell", 0), op("close", 0), op("open", 1, mode="r"), op("all", 1), op("close", 1)]
    for m in MODES:
        for exists in (0, 1):
            for a in moves():
                for b in moves():
                    yield case((fill() if exists else []) + [op("open", 0, mode=m), a, b] + tail)
    for m in MODES:
        yield case([op("open", 0, f="none/x", mode=m), op("exists", 0, f="f")])
        yield case(fill() + [op("open", 0, f="none/x", mode=m), op("open", 1, mode="r"), op("all", 1), op("close", 1)])
        yield case([op("open", 0, f="none/x", mode=m, n=1), op("isopen", 0), op("close", 0), op("open", 0, mode="w"), text(0, "a"), op("close", 0)], "object")
        yield case([op("open", 0, mode=m), op("isopen", 0), op("open", 0, mode="w"), op("isopen", 0), op("close", 0), op("isopen", 0), op("close", 0)], "object")


def codes():
    """every byte, written by its code and read back"""
    for first in range(0, 256, 8):
        bytes_ = range(first, first + 8)
        yield case([op("open", 0, mode="w+")] + [op("char", 0, bytes=[b]) for b in bytes_] + [op("tell", 0), op("rewind", 0)] + [op("code", 0) for _ in bytes_]
                   + [op("eof", 0), op("code", 0), op("eof", 0), op("close", 0)])


def backs():
    """bytes put back at every position, and what is read, told or written next"""
    for b in list(range(0, 256, 15)) + [10, 13, 127, 128, 200, 254, -1]:
        yield case(fill() + [op("open", 0, mode="r"), op("code", 0), op("unget", 0, n=b), op("tell", 0), op("code", 0), op("code", 0), op("tell", 0), op("close", 0)])
    tails = [[op("read", 0, n=3)], [op("line", 0, n=20)], [op("line", 0, n=2)], [op("code", 0), op("code", 0)], [op("seek", 0, n=0), op("all", 0)], [op("rewind", 0), op("read", 0, n=5)],
             [op("seek", 0, n=-1, w="end"), op("code", 0)], [op("seek", 0, n=5), text(0, "new"), op("rewind", 0), op("all", 0)], [get(0, "i")], [op("read", 0, n=20)]]
    for mode in ("r", "r+", "a+"):
        for p in range(0, 13):
            for n, t in enumerate(tails):
                yield case(fill() + [op("open", 0, mode=mode), op("seek", 0, n=p), op("code", 0), op("unget", 0, n=(81, 10)[(n + p) % 2]), op("eof", 0)] + t + [op("tell", 0), op("eof", 0), op("close", 0), op("open", 1, mode="r"), op("all", 1), op("close", 1)])
    for mode in ("r", "r+"):
        for o in (value(0, "i", 7), value(0, "b", True), value(0, "d", 1.5), value(0, "f", 1.5)):
            for n in ([op("clear", 0)], [op("rewind", 0)], [op("seek", 0, n=0)], []):
                yield case(fill() + [op("open", 0, mode=mode), op("failed", 0), o, op("failed", 0)] + n + [op("failed", 0), op("eof", 0), op("close", 0)])
        for n in ([op("clear", 0)], [op("rewind", 0)], [op("seek", 0, n=12)], []):
            yield case(fill() + [op("open", 0, mode=mode), op("all", 0), op("eof", 0), op("failed", 0)] + n + [op("eof", 0), op("failed", 0), op("close", 0)])


def seeks():
    """from every position to every other one"""
    for a in range(0, 13):
        for w, n in [("set", b) for b in range(0, 13)] + [("cur", b) for b in range(-a, 13 - a)] + [("end", -b) for b in range(0, 13)]:
            yield case(fill() + [op("open", 0, mode="r"), op("seek", 0, n=a), op("seek", 0, n=n, w=w), op("tell", 0), op("code", 0), op("tell", 0), op("close", 0)])


def values():
    for t, v in SAMPLES:
        for u, w in SAMPLES:
            ops = [op("open", 0, mode="w+"), value(0, t, v), value(0, u, w), op("tell", 0), op("rewind", 0), get(0, t), op("tell", 0), get(0, u), op("eof", 0), get(0, "i"), op("eof", 0), op("close", 0)]
            yield case(ops)
            yield case([o for o in ops if o["op"] != "tell"], "object")
    for t, v in SAMPLES:
        yield case(fill("") + [op("open", 0, mode="r"), value(0, t, v), op("close", 0)])
        yield case(fill_object("") + [op("open", 0, mode="r"), value(0, t, v), op("close", 0)], "object")
        yield case([op("open", 0, mode="w"), value(0, t, v), text(0, "tail"), op("close", 0), op("open", 1, mode="r+"), get(1, t), op("read", 1, n=4), op("eof", 1), op("read", 1, n=1), op("eof", 1), op("close", 1)])


def uses():
    """handles that are not open"""
    for o in moves(1) + [op("close", 1), get(1, "i"), get(1, "b"), get(1, "d"), get(1, "f"), value(1, "i", 1), value(1, "b", True), value(1, "d", 1.5)]:
        yield case([op("exists"), o])
        yield case([op("open", 1, f="none/x", mode="r"), o])
        yield case(fill() + [op("open", 1, mode="r"), op("close", 1), o])
        yield case(fill() + [op("open", 0, mode="r"), op("open", 1, mode="r"), op("close", 1), op("read", 0, n=4), o])
    for o in [op("read", 1, n=1), op("read", 1, n=3), get(1, "i"), get(1, "b"), op("eof", 1), op("seek", 1, n=1), op("rewind", 1), text(1, "a"), value(1, "i", 3)]:
        yield case([op("isopen", 1), o], "object")
        yield case([op("open", 1, f="none/x"), op("isopen", 1), o], "object")


def several():
    """two readers of one file, two files, removing and renaming"""
    for a, b in itertools.product([op("read", 0, n=3), op("seek", 0, n=4), op("line", 0, n=20), op("tell", 0)], repeat=2):
        on = lambda o: dict(o, h=1)
        yield case(fill() + [op("open", 0, mode="r"), op("open", 1, mode="r"), a, on(b), b, on(a), op("close", 0), op("read", 1, n=2), op("tell", 1), op("close", 1)])
    steps = [op("remove"), op("rename"), op("rename", f="g", g="f"), op("rename", f="f", g="f"), op("exists"), op("exists", f="g"), op("remove", f="g")]
    for a, b, c in itertools.product(steps, repeat=3):
        yield case(fill("one") + [a, b, c, op("exists"), op("exists", f="g")])
    for n in (1022, 1023, 1024, 1025, 2047, 2048, 3000):
        line = "x" * n
        for size in (n, n + 1, n + 2, 1024, 1025, 5000):
            yield case(fill(line + "\nnext") + [op("open", 0, mode="r"), op("line", 0, n=size), op("tell", 0), op("line", 0, n=5000), op("eof", 0), op("close", 0)])


def temporaries():
    """files without a name, with every operation first and second, and several of them"""
    tail = [op("eof", 0), op("rewind", 0), op("all", 0), op("close", 0)]
    for a, b in itertools.product(moves(), repeat=2):
        yield case([op("open", 0, f="tmp0", mode="w+"), text(0, "hello world"), op("rewind", 0), a, b] + tail)
    other = [op("open", 1, f="tmp1", mode="w+"), text(1, "second"), op("open", 2, mode="w"), text(2, "named")]
    for a in moves():
        yield case([op("open", 0, f="tmp0", mode="w+"), text(0, "first"), op("rewind", 0)] + other + [a, op("rewind", 1), op("all", 1), op("close", 1)] + tail
                   + [op("close", 2), op("open", 0, f="tmp0", mode="w+"), op("all", 0), op("close", 0), op("exists")])


def some(rng, count):
    for _ in range(count):
        api = rng.choice(["handle", "object"])
        ops = []
        for _ in range(rng.randint(4, 25)):
            h = rng.randrange(3)
            k = rng.random()
            if k < 0.25:
                ops.append(op("open", h, f=rng.choice("ffg"), mode=rng.choice(list(MODES)), n=rng.randrange(2)))
            elif k < 0.32:
                ops.append(op("close", h))
            elif k < 0.36:
                ops.append(op("exists", f=rng.choice("fg")))
            elif k < 0.5:
                ops.append(value(h, *rng.choice(SAMPLES)))
            elif k < 0.6:
                ops.append(op("seek", h, n=rng.randrange(12)))
            elif k < 0.7:
                ops.append(get(h, rng.choice("bifd")))
            elif k < 0.8:
                ops.append(text(h, rng.choice(["a", "bcd", "hello world", ""])))
            elif api == "object":
                ops.append(rng.choice([op("read", h, n=rng.randint(1, 6)), op("all", h), op("rewind", h), op("eof", h), op("size", h), op("isopen", h)]))
            else:
                ops.append(rng.choice(moves(h) + [op("remove", f=rng.choice("fg")), op("rename", f="f", g="g")]))
        # bias towards handles that are open
        opened, kept = {}, []
        for o in ops:
            if o["op"] == "open":
                if o["h"] in opened and rng.random() < 0.9:
                    continue
                opened[o["h"]] = 1
            elif o["op"] not in ("exists", "remove", "rename", "isopen") and o["h"] not in opened:
                if rng.random() < 0.95:
                    if not opened:
                        continue
                    o = dict(o, h=rng.choice(sorted(opened)))
            if o["op"] == "close":
                opened.pop(o["h"], None)
            kept.append(o)
        if kept:
            yield case(kept, api)
