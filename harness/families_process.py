"""Command lines and programs for R01."""
import process as P

TEXTS = ["a", "b c", "", "x=1", "tab\there", "end ", " start", "quote\"", "back\\slash", "%s %d", "ä", "0"]
WORDS = ["", "a", "b c", "-q", "--syntax", "-v", "-f", "--", "main.os", "é", "x=y", "*", "$HOME", "a\tb", "'", "\"", "-l", "--version", "1.5", "long" * 50]
SCRIPTS = ["main.os", "./main.os", "sub/main.os", "sub/../main.os", "name with blank.os", "noext"]


def stmt(a, t="", n=0, **kw):
    return dict(a=a, t=t, n=n, **kw)


def random_statement(rng):
    a = rng.choice(["print"] * 5 + ["write", "writeln", "cout", "puts", "putchar", "cerr", "endl", "args", "cin", "getenv", "setenv", "putenv"])
    if a == "putchar":
        return stmt(a, rng.choice("AZaz09 "))
    if a == "getenv":
        return stmt(a, rng.choice(["FOO", "BAR", "BAZ"]))
    if a in ("setenv", "putenv"):
        return stmt(a, rng.choice(["FOO", "BAR", "BAZ"]), rng.choice([0, 1]), v=rng.choice(["", "1", "new value"]) if a == "setenv" else rng.choice(["1", "v w"]))
    return stmt(a, rng.choice(TEXTS))


def ending(rng):
    a = rng.choice(["", "exit", "exit", "return", "return", "throw", "fatal"])
    n = rng.choice([0, 0, 1, 2, 3, 42, 127, 128, 254, 255, 256, 257, -1, -2, 1000])
    if a == "":
        return []
    return [stmt(a, "", n, how=rng.choice(sorted(P.EXITS)))]


def settled(prog):
    """which stream endl() goes to before the first cout() or cerr() is left open"""
    known = False
    for s in prog:
        known = known or s["a"] in ("cout", "cerr")
        if s["a"] == "endl" and not known:
            s["a"], known = "cout", True
    return prog


def case(argv, prog, kind="", good=("main.os",), bad=(), input=(), env=None):
    prog = settled(prog)
    kind = kind or ("int" if any(s["a"] == "return" for s in prog) else "void")
    return {"argv": list(argv), "prog": prog, "kind": kind, "good": list(good), "bad": list(bad), "input": list(input), "env": env or {}}


def exits(rng):
    """every place exit can stand at, with a text before and one after it"""
    for how in sorted(P.EXITS):
        for n in (0, 1, 7, 255, 256, -1):
            for kind in ("int", "void"):
                yield case(["main.os"], [stmt("print", "before"), stmt("exit", "", n, how=how), stmt("print", "after")], kind)
    for n in list(range(0, 260, 13)) + [255, 256, 257, 511, 512, -1, -255, -256, 2147483647]:
        yield case(["main.os"], [stmt("print", "before"), stmt("return", "", n)])


def arguments(rng):
    """all command lines of up to two words, and longer ones"""
    for script in SCRIPTS:
        for words in [[]] + [[a] for a in WORDS] + [[rng.choice(WORDS) for _ in range(rng.randint(2, 6))] for _ in range(8)]:
            yield case([script] + words, [stmt("args")], good=[script])
            yield case([rng.choice(["-f", "--file"]), script] + words, [stmt("args")], good=[script])
    for n in (10, 50, 300):
        yield case(["main.os"] + [str(x) for x in range(n)], [stmt("args")])


def options(rng, n):
    for _ in range(n):
        argv = []
        for _ in range(rng.randint(0, 4)):
            o = rng.choice(["-q", "--quiet", "-v", "--verbose", "--syntax", "--skip-sanitycheck", "-l", "--library", "--tokens", "--version", "-h", "--help", "-q", "-v"]
                           if rng.random() < 0.3 else ["-q", "-v", "--quiet", "--verbose", "-l", "--skip-sanitycheck", "--syntax"])
            argv.append(o)
            if o in ("-l", "--library"):
                argv.append(rng.choice(["sub", ".", "nowhere"]))
        script = rng.choice(["main.os"] * 6 + ["bad.os", "missing.os", ""])
        if script:
            argv += ([rng.choice(["-f", "--file"])] if rng.random() < 0.3 else []) + [script]
        elif rng.random() < 0.3:
            argv.append(rng.choice(["-f", "-l", "--file", "--library"]))
        argv += [rng.choice(WORDS) for _ in range(rng.randint(0, 2))] if script else []
        prog = [random_statement(rng) for _ in range(rng.randint(1, 4))] + ending(rng)
        yield case(argv, prog, bad=["bad.os"])


def programs(rng, n):
    for _ in range(n):
        prog = [random_statement(rng) for _ in range(rng.randint(1, 12))] + ending(rng) + [random_statement(rng) for _ in range(rng.randint(0, 2))]
        if any(s["a"] == "return" for s in prog):
            prog = prog[:1 + max(j for j, s in enumerate(prog) if s["a"] == "return")]
        inp = [rng.choice(["one", "two words", "  indented", "", "trailing ", "x" * 200, "42"]) for _ in range(rng.randint(0, 5))]
        env = {x: rng.choice(["", "value", "a b"]) for x in ("FOO", "BAR") if rng.random() < 0.5}
        yield case((["-q"] if rng.random() < 0.2 else []) + ["main.os"] + [rng.choice(WORDS) for _ in range(rng.randint(0, 3))], prog, rng.choice(["int", ""]), input=inp, env=env)
    for n in (1000, 5000):
        yield case(["main.os"], [stmt("print", "line %d" % i) for i in range(n)])
