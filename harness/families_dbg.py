"""Programs and command lists for the debugger."""
import copy
import itertools

from debugger import add, cond, ev, if_, num, sub, try_, var, while_, Text


def lines_of(body):
    for s in body:
        yield s["line"]
        for part in ("then", "else", "body", "handler"):
            if part in s:
                for l in lines_of(s[part]):
                    yield l


def all_lines(fns):
    return [l for fn in fns.values() for l in lines_of(fn["body"])]


def small():
    """Two calls in one statement, a call that throws, a loop."""
    f = {"params": ["a"], "body": [ev("decl", "x", value=add(var("a"), num(1))), ev("return", value=var("x"))]}
    g = {"params": ["b"], "body": [
        if_(cond(">", var("b"), num(1)), [ev("throw", value=var("b"))], [ev("print", value=var("b"))]),
        ev("return", calls=[("f", [var("b")])])]}
    main = {"params": [], "body": [
        ev("decl", "y", calls=[("f", [num(1)]), ("g", [num(0)])]),
        try_([ev("set", "y", calls=[("g", [var("y")])]), ev("print", value=num(99))], "e", [ev("print", value=var("e"))]),
        while_(cond("<", var("y"), num(5)), [ev("set", "y", calls=[("f", [var("y")])], value=num(0))]),
        ev("return", value=var("y"))]}
    return {"f": f, "g": g, "Main": main}


def steps(length):
    """All step commands up to a length, with and without breakpoints."""
    fns = small()
    str(Text(fns))
    lines = all_lines(fns)
    marks = [[], [lines[1]], [lines[3]], [lines[-2]]]
    for bps in marks:
        for cmds in itertools.product(("n", "i", "o", "c"), repeat=length):
            yield fns, [["b", l, []] for l in bps] + [["r"]] + [[x] for x in cmds] + [["bt"], ["p", "y"], ["p", "x"], ["p", "a"], ["ignore"], ["c"], ["c"]]


def breaks():
    """Each line with a breakpoint, each pair of lines, and conditions."""
    fns = small()
    str(Text(fns))
    lines = all_lines(fns)
    shown = [["p", "y"], ["p", "a"], ["p", "b"], ["p", "e"], ["p", "x"]]
    for l in lines:
        yield fns, [["b", l, []], ["r"]] + (shown + [["c"]]) * 9
    for l, m in itertools.combinations(lines, 2):
        yield fns, [["b", m, []], ["b", l, []], ["r"]] + [["c"]] * 4 + [["d", 1], ["breakpoints"]] + [["c"]] * 8
        yield fns, [["b", l, []], ["b", m, []], ["d", 3], ["d", 2], ["r"]] + [["c"]] * 12 + [["r"]] + [["n"]] * 5
    for op, n in itertools.product(("==", "!=", "<", "<=", ">", ">="), (1, 2, 3)):
        for l in lines[:2]:
            yield fns, [["b", l, ["a", op, n]], ["r"]] + [["c"], ["p", "a"]] * 8
            yield fns, [["b", l, ["a", op, n]], ["r"]] + [["i"], ["n"], ["n"], ["p", "a"]] * 5


NAMES = ["u", "v", "w"]


class Some:
    def __init__(self, rng):
        self.rng = rng

    def value(self, known, depth=1):
        r = self.rng
        x = r.random()
        if depth and x < 0.3:
            return (add if r.random() < 0.7 else sub)(self.value(known, 0), self.value(known, 0))
        if known and x < 0.75:
            return var(r.choice(known))
        return num(r.randint(0, 4))

    def calls(self, known, callees):
        r = self.rng
        return [(f, [self.value(known) for _ in p]) for f, p in (r.choice(callees) for _ in range(r.choice((0, 0, 1, 1, 2))))] if callees else []

    def body(self, known, free, callees, depth, size, thrower):
        r = self.rng
        known, free, out = list(known), list(free), []
        for _ in range(size):
            x = r.random()
            if x < 0.2 and free:
                n = free.pop(0)
                out.append(ev("decl", n, self.calls(known, callees), self.value(known)))
                known.append(n)
            elif x < 0.35 and known:
                out.append(ev("set", r.choice(known), self.calls(known, callees), self.value(known)))
            elif x < 0.5:
                out.append(ev("print", "", self.calls(known, callees), self.value(known)))
            elif x < 0.6 and callees:
                out.append(ev("none", "", self.calls(known, callees)[:1] or [(callees[0][0], [num(1) for _ in callees[0][1]])]))
            elif x < 0.75 and depth:
                out.append(if_(cond(r.choice(("<", "==", ">", "!=")), self.value(known), self.value(known)),
                               self.body(known, free, callees, depth - 1, r.randint(1, 2), thrower),
                               self.body(known, free, callees, depth - 1, r.randint(0, 2), thrower)))
            elif x < 0.85 and depth and len(free) > 1:
                n = free.pop(0)
                out.append(ev("decl", n, value=num(0)))
                inner = self.body(known, free, callees, depth - 1, r.randint(0, 2), thrower)
                out.append(while_(cond("<", var(n), num(r.randint(1, 3))), inner + [ev("set", n, value=add(var(n), num(1)))]))
                # assigned by nobody else, so that it ends
            elif x < 0.93 and depth:
                out.append(try_(self.body(known, free, callees, depth - 1, r.randint(1, 2), True), "e",
                                self.body(known + ["e"], free, callees, depth - 1, r.randint(0, 2), thrower)))
            elif thrower:
                out.append(ev("throw", "", self.calls(known, callees) if r.random() < 0.3 else (), self.value(known)))
                break
        return out

    def program(self):
        r = self.rng
        fns, callees = {}, []
        for name, params in (("f", ["a"]), ("g", ["b", "c"]), ("Main", [])):
            body = self.body(params, NAMES + ["x", "y"], callees, 2, r.randint(1, 3), name != "Main" and r.random() < 0.4)
            if name == "Main" and r.random() < 0.6:
                body = [ev("decl", "z", value=num(7)), try_(body, "e", [ev("print", value=var("e"))])]
            if not body or body[-1].get("dest") != "throw":
                body.append(ev("return", "", self.calls(params, callees) if r.random() < 0.4 else (), self.value(params)))
            fns[name] = {"params": params, "body": body}
            callees.append((name, params))
        return fns

    def commands(self, fns):
        r = self.rng
        lines = all_lines(fns)
        own = {l: fn["params"] for fn in fns.values() for l in lines_of(fn["body"])}
        out, running = [], False
        bias = r.choice((("n", "i", "o", "c"), ("n",), ("i", "o"), ("c",), ("n", "i"), ("n", "n", "c", "ignore")))
        for j in range(r.randint(4, 30)):
            x = r.random()
            if x < (0.15 if j else 0.5):
                l = r.choice(lines)
                test = [r.choice(own[l]), r.choice(("==", "!=", "<", "<=", ">", ">=")), r.randint(0, 4)] if own[l] and r.random() < 0.4 else []
                out.append(["b", l, test])
            elif x < 0.2:
                out.append(["d", r.randint(0, 3)])
            elif x < 0.23:
                out.append(["breakpoints"])
            elif not running or x < 0.25:
                out.append(["r"])
                running = True
            elif x < 0.4:
                out.append(["p", r.choice(["a", "b", "c", "e", "x", "y", "z"] + NAMES)])
            elif x < 0.44:
                out.append(["m", r.choice(["a", "b", "c", "z"] + NAMES[:1]), r.randint(0, 5)])
            elif x < 0.48:
                out.append(["bt"])
            elif x < 0.52:
                out.append(["frame", r.randint(0, 2)])
            elif x < 0.55:
                out.append(["w", r.choice(["a", "y", "z"] + NAMES)])
            elif x < 0.57:
                out.append(["unwatch", r.choice(["a", "y", "z"] + NAMES)])
            else:
                out.append([r.choice(bias)])
        if r.random() < 0.15:
            out.append(["q"])
        return out


def some(rng, n):
    made = Some(rng)
    for _ in range(n):
        fns = made.program()
        str(Text(fns))
        yield fns, made.commands(fns)
