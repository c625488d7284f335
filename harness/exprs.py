"""Expressions as token sequences: generation and replay of what SlangExpr.tla expects."""
import itertools
import os

from cases import ask
from common import parallel, slang

BOOL = ["&&", "||", "!&", "!|"]
EQ = ["==", "!="]
ORD = ["<", "<=", ">", ">="]
ADD = ["+", "-", "&", "|"]
MUL = ["*", "/", "%"]
BINARY = BOOL + EQ + ORD + ADD + MUL
ASSIGN = ["+=", "-=", "*=", "/=", "%=", "&=", "|="]


def op(v):
    return {"k": "op", "v": v, "n": 0}


def num(n):
    return {"k": "int", "v": "", "n": n}


def boolean(b):
    return {"k": "bool", "v": "", "n": 1 if b else 0}


def text(s):
    return {"k": "str", "v": s, "n": 0}


def var(v):
    return {"k": "var", "v": v, "n": 0}


def tr(i, *ts):
    return [{"k": "tr", "v": i, "n": 0}, op("(")] + list(ts) + [op(")")]


def show(t):
    k = t["k"]
    if k == "int":
        return str(t["n"])
    if k == "bool":
        return "true" if t["n"] else "false"
    if k == "str":
        return '"%s"' % t["v"]
    if k == "tr":
        return 't("%s",' % t["v"]
    return t["v"]


def source(ts):
    out = []
    i = 0
    while i < len(ts):
        out.append(show(ts[i]))
        i += 2 if ts[i]["k"] == "tr" else 1
    return " ".join(out)


NUMS = [7, 2, 5, 3, 6, 4, 1, 0]


def operand(ty, i, v):
    """A traced operand of the given type."""
    leaf = {"int": num(v), "bool": boolean(v % 2), "string": text("ab"[v % 2])}[ty]
    return tr("abcdefgh"[i], leaf)


def chains(n, rng, pick=None):
    """All sequences of n binary operators over operands of all types (pick: that many of them)."""
    def make(ops, tys, vals):
        ts = operand(tys[0], 0, vals[0])
        for i, o in enumerate(ops):
            ts += [op(o)] + operand(tys[i + 1], i + 1, vals[i + 1])
        return ts

    if pick is None:
        for ops in itertools.product(BINARY, repeat=n):
            for tys in itertools.product(["int", "bool", "string"], repeat=n + 1):
                # string operands only matter where + or == may see them
                if "string" in tys and not set(ops) & {"+", "==", "!="}:
                    continue
                yield make(ops, tys, [rng.choice(NUMS) for _ in range(n + 1)])
    else:
        for _ in range(pick):
            ops = [rng.choice(BINARY) for _ in range(n)]
            yield make(ops, [typed(rng, ops, i) for i in range(n + 1)], [rng.choice(NUMS) for _ in range(n + 1)])


def typed(rng, ops, i):
    """An operand type which is likely to fit its neighbours."""
    near = ([ops[i - 1]] if i else []) + ([ops[i]] if i < len(ops) else [])
    if all(o in BOOL + EQ for o in near):
        return rng.choice(["bool", "bool", "int"])
    if "+" in near and rng.random() < 0.1:
        return "string"
    return "int"


def shapes():
    """Prefixes, conditionals, assignments, increments and parentheses at every place of short sequences."""
    ops = ["+", "-", "*", "%", "&", "<", "==", "&&", "||"]
    pre = [[], [op("-")], [op("!")], [op("+")]]
    for o, p, q in itertools.product(ops, pre, pre):
        for t1, t2 in itertools.product(["int", "bool"], repeat=2):
            yield p + operand(t1, 0, 7) + [op(o)] + q + operand(t2, 1, 3)
    for o1, o2 in itertools.product(ops, repeat=2):
        for tys in itertools.product(["int", "bool"], repeat=3):
            a, b, c = (operand(t, i, v) for i, (t, v) in enumerate(zip(tys, (7, 2, 5))))
            yield [op("(")] + a + [op(o1)] + b + [op(")"), op(o2)] + c
            yield a + [op(o1), op("(")] + b + [op(o2)] + c + [op(")")]
            yield [op("-"), op("(")] + a + [op(o1)] + b + [op(")"), op(o2)] + c
            yield [op("!"), op("(")] + a + [op(o1)] + b + [op(")"), op(o2)] + c
            # conditionals: what belongs to the condition and how far the branches reach
            yield a + [op("?")] + b + [op(o1)] + num_op(3) + [op(":")] + c + [op(o2)] + num_op(4)
            yield a + [op(o1)] + b + [op("?")] + c + [op(":")] + num_op(4) + [op(o2)] + num_op(6)
            yield [op("!")] + a + [op("?")] + b + [op(":")] + c + [op(o1)] + num_op(4)
            yield [op("(")] + a + [op(o1)] + b + [op(")"), op("?")] + c + [op(":")] + num_op(4)
            yield a + [op("?"), op(":")] + b + [op(o1)] + c
            yield a + [op("?")] + b + [op(":")] + c + [op("?")] + num_op(1) + [op(":")] + num_op(0)
            yield a + [op("?")] + b + [op("?")] + c + [op(":")] + num_op(1) + [op(":")] + num_op(0)
    # assignments inside expressions
    for a in ["="] + ASSIGN:
        for o in ops:
            for v in ("x", "y", "b"):
                for t in ("int", "bool"):
                    e = operand(t, 1, 3)
                    yield [op("("), var(v), op(a)] + e + [op(")"), op(o), var(v)]
                    yield [var(v), op(o), op("("), var(v), op(a)] + e + [op(")")]
                    yield operand(t, 0, 5) + [op(o), var(v), op(a)] + e
                    yield [var(v), op(a)] + e + [op(o)] + operand(t, 2, 2)
                    yield [op("("), var(v), op(a)] + e + [op(")"), op(o), op("("), var(v), op(a)] + operand(t, 2, 2) + [op(")")]
        for v, w in (("x", "y"), ("x", "x"), ("b", "c")):
            for a2 in ["="] + ASSIGN:
                yield [var(v), op(a), var(w), op(a2)] + operand("int", 0, 3)
                yield [var(v), op(a), var(w), op(a2)] + operand("bool", 0, 3) + [op("+"), var(v)]
    for o in ops:
        for i1, i2 in itertools.product(["++", "--"], repeat=2):
            yield [var("x"), op(i1), op(o), var("x"), op(i2)]
            yield [var("x"), op(o), var("x"), op(i2)]
            yield [var("x"), op(i1), op(o), var("x")]
            yield [var("x"), op(i1), op(o), var("y"), op(i2), op(o), var("x")]
            yield [op("-"), var("x"), op(i1), op(o), var("x")]
            yield tr("a", var("x"), op(i1)) + [op(o)] + tr("b", var("x"), op(i2)) + [op(o)] + tr("c", var("x"))
    # strings join from left to right
    for t1, t2, t3 in itertools.product(["int", "bool", "string"], repeat=3):
        for par in range(3):
            a, b, c = (operand(t, i, v) for i, (t, v) in enumerate(zip((t1, t2, t3), (7, 3, 4))))
            if par == 0:
                yield a + [op("+")] + b + [op("+")] + c
            elif par == 1:
                yield a + [op("+"), op("(")] + b + [op("+")] + c + [op(")")]
            else:
                yield [var("s"), op("+=")] + a + [op("+")] + b + [op("+")] + c


def num_op(v):
    return tr("k%d" % v, num(v))


class Rand:
    """Typed trees written down with some of their parentheses missing."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def make(self, depth=4):
        self.n = 0
        return self.tree(self.rng.choice(["int", "int", "bool", "bool", "string"]), depth)

    def wrap(self, ts, p=0.5):
        return [op("(")] + ts + [op(")")] if self.rng.random() < p else ts

    def leaf(self, ty):
        r = self.rng
        if r.random() < 0.35:
            return [var({"int": r.choice("xyz"), "bool": r.choice("bc"), "string": "s"}[ty])]
        leaf = {"int": num(r.choice(NUMS)), "bool": boolean(r.randrange(2)), "string": text(r.choice("pqr"))}[ty]
        if r.random() < 0.3:
            return [leaf]
        self.n += 1
        return tr("t%d" % self.n, leaf)

    def tree(self, ty, d):
        r = self.rng
        if d <= 0 or r.random() < 0.12:
            return self.leaf(ty)
        x = r.random()
        sub = lambda t: self.wrap(self.tree(t, d - 1))
        if x < 0.07:
            self.n += 1
            return tr("t%d" % self.n, *self.tree(ty, d - 1))
        if x < 0.14:
            return sub(r.choice(["bool", "bool", "int"])) + [op("?")] + sub(ty) + [op(":")] + sub(ty)
        if x < 0.16 and ty != "string":
            return sub(ty) + [op("?"), op(":")] + sub(ty)
        if x < 0.24:
            v = {"int": r.choice("xyz"), "bool": r.choice("bc"), "string": "s"}[ty]
            o = "=" if ty == "bool" else r.choice(["=", "+="]) if ty == "string" else r.choice(["="] + ASSIGN)
            return self.wrap([var(v), op(o)] + sub(ty), 0.7)
        if ty == "int":
            if x < 0.3:
                return [var(r.choice("xyz")), op(r.choice(["++", "--"]))]
            if x < 0.38:
                return [op(r.choice("-+"))] + self.wrap(self.tree("int", d - 1), 0.8)
            return sub("int") + [op(r.choice(ADD + MUL))] + sub("int")
        if ty == "bool":
            if x < 0.4:
                return [op("!")] + self.wrap(self.tree("bool", d - 1), 0.8)
            if x < 0.6:
                t = r.choice(["int", "int", "bool", "string"])
                return sub(t) + [op(r.choice(EQ if t != "int" else EQ + ORD))] + sub(t)
            return sub(r.choice(["bool", "bool", "int"])) + [op(r.choice(BOOL))] + sub(r.choice(["bool", "bool", "int"]))
        return sub("string") + [op("+")] + sub(r.choice(["int", "bool", "string"]))


PRELUDE = """#!/usr/local/bin/slang
import System.IO.Console;

public int t(string id, int v) { print(id + ":" + v); return v; }
public bool t(string id, bool v) { print(id + ":" + v); return v; }
public string t(string id, string v) { print(id + ":" + v); return v; }
public void r(int v) { print("int " + v); }
public void r(bool v) { print("bool " + v); }
public void r(string v) { print("string " + v); }

"""


def program(batch):
    """batch: list of (index, source)."""
    out = [PRELUDE.replace("import System.IO.Console;\n", "")]
    for i, s in batch:
        out.append("public void case%d() {\n\tint x = 5; int y = -3; int z = 2; bool b = true; bool c = false; string s = \"S\";\n"
                   "\tprint(\"#%d\");\n\tr( %s );\n\tprint(\"\" + x + \" \" + y + \" \" + z + \" \" + b + \" \" + c + \" \" + s);\n}\n" % (i, i, s))
    out.append("public void Main(int argc, string args) modify {\n" + "".join("\tcase%d();\n" % i for i, _ in batch) + "}\n")
    return "".join(out)


def run_batch(path, batch):
    """Returns {index: lines} and the raw output."""
    src = program(batch)
    with open(path, "w") as f:
        f.write(src)
    r = slang([path])
    res, cur = {}, None
    for l in r.lines():
        if l.startswith("#"):
            cur = res.setdefault(int(l[1:]), [])
        elif cur is not None:
            cur.append(l)
    return res, r.out + r.err + "exit %d\n" % r.code, src, r.code


def check(chk, cases, size=40, chunk=12000):
    # two + (or -) in a row are one ++ (or --), with or without space between them
    cases = [ts for ts in cases if not any(a["k"] == "op" == b["k"] and a["v"] == b["v"] in "+-" for a, b in zip(ts, ts[1:]))]
    for base in range(0, len(cases), chunk):
        part = cases[base:base + chunk]
        t = ask(chk, "SlangExpr", part, "INVARIANT RoundTrip\n")
        want = {}
        for i, ty, v, log, env in t.tuples("CASE"):
            want[i] = log + ["%s %s" % (ty, v), " ".join(env[k] for k in ("x", "y", "z", "b", "c", "s"))]
        chk.extra["ill_typed"] = chk.extra.get("ill_typed", 0) + len(t.tuples("BAD"))
        chk.extra["left_open"] = chk.extra.get("left_open", 0) + len(t.tuples("SKIP"))
        ids = sorted(want)
        chk.require(len(ids) > 0.1 * len(part), "too few well formed expressions: %d of %d" % (len(ids), len(part)))
        batches = [[(i, source(part[i - 1])) for i in ids[j:j + size]] for j in range(0, len(ids), size)]
        paths = [os.path.join(chk.scratch, "e%d.os" % j) for j in range(len(batches))]
        got = parallel(lambda x: run_batch(*x), list(zip(paths, batches)))
        for b, (res, out, src, code) in zip(batches, got):
            for i, s in b:
                if code == 0 and res.get(i) == want[i]:
                    chk.traces += 1
                    chk.sample({"expression": s, "lines": want[i]})
                    continue
                # judge the case on its own: a failing neighbour must not be blamed on it
                r1, o1, s1, c1 = run_batch(os.path.join(chk.scratch, "one.os"), [(i, s)])
                if c1 == 0 and r1.get(i) == want[i]:
                    chk.traces += 1
                    continue
                chk.violation("expr:" + s.replace(" ", ""), "expression %s: specification %s, slang %s" % (s, want[i], r1.get(i, o1)),
                              {"program.os": s1, "output.txt": o1})
