"""Histories of operations for C01."""
import itertools

KINDS = ("List", "Vector", "DoubleLinkedList", "Stack", "Queue", "Set", "Bag", "Map")
SEQ = ["push_back", "push_front", "pop_back", "pop_front", "erase0", "erase1", "erasel", "erases", "clear", "copy", "swap"]
SHORT = {
    "List": SEQ, "DoubleLinkedList": SEQ, "Vector": SEQ + ["insert0", "insert1", "inserts", "inserto"],
    "Stack": ["push", "pop", "erase0", "erase1", "erasel", "erases", "clear", "copy", "swap"],
    "Queue": ["enqueue", "dequeue", "clear", "copy", "swap"],
    "Set": ["low", "high", "same", "erase0", "erasel", "erases", "clear", "copy", "swap"],
    "Bag": ["low", "high", "same", "erase0", "erasel", "erases", "clear", "copy", "swap"],
    "Map": ["new", "put1", "put2", "remove1", "remove2", "clear", "copy", "swap"],
}
READ = {
    "List": ["at", "sub", "first", "last", "indexOf", "contains", "fresh", "over", "again", "current"],
    "Stack": ["at", "sub", "peek", "indexOf", "contains", "fresh", "over", "again", "current"],
    "Queue": ["at", "sub", "peek", "fresh", "over", "again", "current"],
    "Map": ["get", "sub", "contains", "indexOf", "first", "last"],
}
for x in ("Vector", "DoubleLinkedList", "Set", "Bag"):
    READ[x] = READ["List"]


def op(name, a=0, b=0):
    return {"op": name, "a": a, "b": b}


class Shape:
    """keeps just enough of the contents to choose operations with"""

    def __init__(self, kind):
        self.kind, self.c, self.o = kind, [], []

    def apply(self, o):
        n, c = o["op"], self.c
        if n == "copy":
            self.o = list(c)
        elif n == "swap":
            self.c, self.o = self.o, self.c
        elif n == "clear":
            self.c = []
        elif n in ("push_back", "push", "enqueue"):
            c.append(o["a"])
        elif n == "push_front":
            c.insert(0, o["a"])
        elif n in ("pop_back", "pop"):
            del c[-1:]
        elif n in ("pop_front", "dequeue"):
            del c[:1]
        elif n == "erase":
            if 0 <= o["a"] < len(c):
                del c[o["a"]]
        elif n == "insert":
            if self.kind == "Map":
                c.append(o["a"])
            elif self.kind == "Vector":
                if 0 <= o["a"] <= len(c):
                    c.insert(o["a"], o["b"])
            elif self.kind == "Bag" or o["a"] not in c:
                c.append(o["a"])
                c.sort()
        elif n == "remove" and o["a"] in c:
            c.remove(o["a"])


def concrete(kind, name, c, n):
    """an operation of the short alphabet, with positions for the contents c and n as a fresh value"""
    if name.startswith("erase"):
        return op("erase", {"0": 0, "1": 1, "l": len(c) - 1, "s": len(c)}[name[5:]])
    if name.startswith("insert"):
        return op("insert", {"0": 0, "1": 1, "s": len(c), "o": len(c) + 1}[name[6:]], n)
    if name in ("low", "high", "same"):
        return op("insert", 50 - n if name == "low" else 50 + n if name == "high" else c[len(c) // 2] if c else 50)
    if name == "new":
        return op("insert", n, n + 10)
    if name in ("put1", "put2", "remove1", "remove2"):
        key = (c[0] if name.endswith("1") else c[-1]) if c else 77
        return op(name[:-1], key, n + 20)
    return op(name, n)


def histories(kind, length):
    for names in itertools.product(SHORT[kind], repeat=length):
        s, ops = Shape(kind), []
        for n, name in enumerate(names):
            o = concrete(kind, name, s.c, n + 1)
            s.apply(o)
            ops.append(o)
        yield ops


def read(kind, name, rng, c):
    if kind == "Map":
        return op(name, rng.choice(c + [77]) if c else 77)
    if name in ("at", "sub"):
        return op(name, rng.randint(-1, len(c) + 1))
    if name in ("indexOf", "contains"):
        return op(name, rng.choice(c + [77]) if c else 77)
    return op(name)


def complete(kind, rng):
    """each short history, then everything that reads"""
    for ops in histories(kind, 3):
        s = Shape(kind)
        for o in ops:
            s.apply(o)
        out = list(ops)
        if kind == "Map":
            out += [read(kind, name, rng, s.c) for name in READ[kind]]
        else:
            out += [op(rng.choice(("at", "sub")), x) for x in (-1, len(s.c) - 1, len(s.c))]
            out += [read(kind, name, rng, s.c) for name in READ[kind] if name not in ("at", "sub")]
        yield out


def random_history(kind, rng, length):
    s, ops = Shape(kind), []
    for n in range(length):
        if rng.random() < 0.25:
            o = read(kind, rng.choice(READ[kind]), rng, s.c)
        else:
            grow = {"Stack": ["push"], "Queue": ["enqueue"], "Set": ["low", "high"], "Bag": ["low", "high", "same"], "Map": ["new"]}.get(kind, ["push_back", "push_front"])
            name = rng.choice(grow) if rng.random() < 0.4 else rng.choice(SHORT[kind])
            o = concrete(kind, name, s.c, n + 1)
            if o["op"] == "erase" and rng.random() < 0.5:
                o = op("erase", rng.randint(-1, len(s.c) + 1))
            if o["op"] == "insert" and kind == "Vector":
                o = op("insert", rng.randint(-1, len(s.c) + 1), n + 1)
            if o["op"] in ("push_back", "push_front", "push", "enqueue") and rng.random() < 0.2:
                o = op(o["op"], rng.randint(1, 4))
        s.apply(o)
        ops.append(o)
    return ops


def ranges(rng, n):
    """all small ranges, and some larger ones"""
    starts = [(a, b, s) for a in range(-2, 4) for b in range(-2, 4) for s in (1, 2, 3, -1, -2, -3)]
    starts += [(rng.randint(-50, 50), rng.randint(-50, 50), rng.choice((1, 2, 3, 7, -1, -2, -5))) for _ in range(n)]
    for a, b, s in starts:
        size = len(range(a, b + (1 if s > 0 else -1), s))
        yield (a, b, s), [op(rng.choice(("at", "sub")), x) for x in (-1, size - 1, size)] + [op(x) for x in ("fresh", "over", "again", "current", "copy")]
