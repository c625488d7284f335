"""Sessions of slang-dbg against SlangDebugger.tla."""
import os
import re

from common import CheckError, parallel, slang
import cases as C


def num(n):
    return {"op": "num", "n": n}


def var(x):
    return {"op": "var", "x": x}


def add(a, b):
    return {"op": "add", "a": a, "b": b}


def sub(a, b):
    return {"op": "sub", "a": a, "b": b}


def ev(dest, x="", calls=(), value=None):
    return {"k": "eval", "line": 0, "dest": dest, "x": x, "calls": [{"f": f, "args": list(a)} for f, a in calls], "add": value or num(0),
            "plus": value is not None}


def cond(op, a, b):
    return {"op": op, "a": a, "b": b}


def if_(c, then, else_=()):
    return {"k": "if", "line": 0, "cond": c, "then": list(then), "else": list(else_)}


def while_(c, body):
    return {"k": "while", "line": 0, "cond": c, "body": list(body)}


def try_(body, x, handler):
    return {"k": "try", "line": 0, "body": list(body), "x": x, "handler": list(handler)}


def expr(e):
    if e["op"] == "num":
        return str(e["n"]) if e["n"] >= 0 else "(%d)" % e["n"]
    if e["op"] == "var":
        return e["x"]
    return "(%s %s %s)" % (expr(e["a"]), {"add": "+", "sub": "-"}[e["op"]], expr(e["b"]))


def test(c):
    return "%s %s %s" % (expr(c["a"]), c["op"], expr(c["b"]))


class Text:
    """The program as text; every statement gets to know its line."""

    def __init__(self, fns):
        self.lines = []
        for name, fn in fns.items():
            params = "int argc, string args" if name == "Main" else ", ".join("int " + p for p in fn["params"])
            self.put(0, "public int %s(%s) modify throws {" % (name, params))
            self.block(fn["body"], 1)
            self.put(0, "}")
            self.put(0, "")

    def put(self, depth, text):
        self.lines.append("\t" * depth + text)
        return len(self.lines)

    def block(self, body, depth):
        for s in body:
            self.statement(s, depth)

    def statement(self, s, d):
        if s["k"] == "eval":
            parts = ["%s(%s)" % (c["f"], ", ".join(expr(a) for a in c["args"])) for c in s["calls"]]
            if s["plus"] or not parts:
                parts.append(expr(s["add"]))
            v = " + ".join(parts)
            s["line"] = self.put(d, {"decl": "int %s = %s;" % (s["x"], v), "set": "%s = %s;" % (s["x"], v), "return": "return %s;" % v,
                                     "throw": "throw %s;" % v, "print": 'print("o" + (%s));' % v, "none": "%s;" % v}[s["dest"]])
        elif s["k"] == "if":
            s["line"] = self.put(d, "if ( %s ) {" % test(s["cond"]))
            self.block(s["then"], d + 1)
            self.put(d, "}")
            if s["else"]:
                self.put(d, "else {")
                self.block(s["else"], d + 1)
                self.put(d, "}")
        elif s["k"] == "while":
            s["line"] = self.put(d, "while ( %s ) {" % test(s["cond"]))
            self.block(s["body"], d + 1)
            self.put(d, "}")
        else:
            s["line"] = self.put(d, "try {")
            self.block(s["body"], d + 1)
            self.put(d, "}")
            self.put(d, "catch ( int %s ) {" % s["x"])
            self.block(s["handler"], d + 1)
            self.put(d, "}")

    def __str__(self):
        return "\n".join(self.lines) + "\n"


def command(c):
    if c[0] == "b":
        return "b t.os %d%s" % (c[1], "".join(" " + str(x) for x in c[2]))
    return " ".join(str(x) for x in c)


LINES = [(re.compile(p), f) for p, f in (
    (r"\[Starting program: .*\]$", lambda m: ["start"]),
    (r"\[Stepping into Frame (\d+): (\w+)\(.*\]$", lambda m: ["enter", int(m[1]), m[2]]),
    (r"\[Stepping out of Frame (\d+): (\w+)\(.*\]$", lambda m: ["exit", int(m[1]), m[2]]),
    (r"\[Exception has been thrown in Frame (\d+): (\w+)\(.*\]$", lambda m: ["throw", int(m[1]), m[2]]),
    (r"\[Breakpoint \S*t\.os (\d+)(?: \[.*\])? reached\]$", lambda m: ["stmt", int(m[1])]),
    (r"\[Process finished with exit code (-?\d+)\]$", lambda m: ["end", int(m[1])]),
    (r"\[Exception thrown in .*", lambda m: ["uncaught"]),
    (r"int (\w+) \w+ = '(-?\d+)'$", lambda m: ["val", m[1], m[2]]),
    (r"could not resolve symbol '(\w+)'!$", lambda m: ["val", m[1], "?"]),
    (r"\[Watch\] (\w+): <not accessible>$", lambda m: ["watch", m[1], "?"]),
    (r"\[Watch\] (\w+): int \w+ \w+ = '(-?\d+)'$", lambda m: ["watch", m[1], m[2]]),
    (r"Thread 0: Frame (\d+): (\w+)\(", lambda m: ["frame", int(m[1]), m[2]]),
    (r"BreakPoints:$", lambda m: ["bps"]),
    (r"\d+: \S*t\.os (\d+)", lambda m: ["bp", int(m[1])]),
    (r"invalid frame selected!$", lambda m: ["noframe"]),
    (r"o(-?\d+)$", lambda m: ["out", int(m[1])]),
)]


def transcript(text):
    found, rest = [], []
    for line in text.split("\n"):
        while line.startswith("slang-dbg> "):
            line = line[len("slang-dbg> "):]
        if not line.strip():
            continue
        for pattern, make in LINES:
            m = pattern.match(line)
            if m:
                found.append(make(m))
                break
        else:
            # the value of an exception that nobody caught follows in lines of its own
            if found and found[-1] == ["uncaught"]:
                continue
            found.append(["text", line])
    return found


def check(chk, family, what):
    """family: (fns, commands given the lines of the program) pairs."""
    cases, texts = [], []
    for fns, cmds in family:
        text = str(Text(fns))
        cases.append({"fns": fns, "cmds": [list(x) for x in cmds]})
        texts.append(text)
    if not cases:
        raise CheckError("no cases for " + what)
    t = C.ask(chk, "SlangDebugger", cases, "INVARIANTS Transparent StopsRight Nested\nCONSTANTS Unknown = Unknown Pending = Pending\n")
    got = {x[0]: (x[1], [list(e) for e in x[2]]) for x in t.tuples("LOG")}
    if len(got) != len(cases):
        raise CheckError("%d of %d cases answered" % (len(got), len(cases)))

    def run(i):
        d = os.path.join(chk.scratch, "%s%d" % (what[:4], i))
        os.makedirs(d)
        with open(os.path.join(d, "t.os"), "w") as f:
            f.write(texts[i])
        typed = "".join(command(c) + "\n" for c in cases[i]["cmds"])
        return typed, slang(["t.os"], cwd=d, tool="slang-dbg", stdin=typed, timeout=60), slang(["t.os"], cwd=d, timeout=60)

    for i, (typed, dbg, plain) in enumerate(parallel(run, range(len(cases)))):
        (outs, end), log = got[i + 1]
        files = {"t.os": texts[i], "commands.txt": typed}
        chk.traces += 1
        told = ["o%d" % v for v in outs]
        lines = [x for x in plain.lines() if re.match(r"o-?\d+$", x)]
        if plain.timeout or lines != told or (end[0] == "end" and plain.code != end[1] % 256):
            chk.violation("plain:%s" % what, "without the debugger: expected %s and %s, got %s and %s" % (told, end, lines, plain.code), files)
            continue
        seen = transcript(dbg.out)
        if log and log[-1] == ["open"]:
            log = log[:-1]
            seen = seen[:len(log)]
        seen = [a[:2] + ["*"] if j < len(log) and a[:2] + ["*"] == log[j] else a for j, a in enumerate(seen)]
        if dbg.timeout or dbg.code != 0 or seen != log:
            n = next((j for j in range(min(len(seen), len(log))) if seen[j] != log[j]), min(len(seen), len(log)))
            chk.violation("%s:%s" % (what, typed.replace("\n", ",")[:80]), "commands %s: after %s expected %s, got %s%s" % (
                typed.replace("\n", ", "), log[max(0, n - 3):n], log[n:n + 3], seen[n:n + 3],
                "" if dbg.code == 0 and not dbg.timeout else " (exit code %s)" % ("timeout" if dbg.timeout else dbg.code)), files)
        elif i % 97 == 0:
            chk.sample("%s: %s -> %s" % (what, typed.replace("\n", ", "), seen[:8]))
