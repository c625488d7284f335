"""Conversions of atomic values: SlangValues.tla says what every step of a route yields; slang has to agree (X02)."""
import os

from cases import ask
from common import CheckError, parallel, slang

CFG = "CONSTANT Open = Open\n" + "".join("INVARIANT %s\n" % i for i in ("InRange", "TextAndBack", "Lossless", "Detour", "Agree"))
TYPES = ["bool", "int16", "int", "int64", "float", "double", "string"]
INTS = ["int16", "int", "int64"]
REALS = ["float", "double"]


def implicit(s, t):
    """conversions a plain assignment does"""
    return s == t or (t in ("bool", "string") or s != "string") and (t != "int16" or s in INTS)


def ways(s, t):
    res = ["cast", "arg", "ret", "box", "self"]
    if implicit(s, t):
        res += ["init", "assign", "member", "global"]
    if s in INTS and t in INTS + REALS:
        res += ["plus", "add"]
    if t == "string":
        res += ["concat", "append"]
    if t == "bool":
        res += ["if", "ternary"]
    return res


def starts(t):
    return ["local", "member", "global", "default"] if t != "bool" else ["local", "member"]


def literal(t, text, neg=""):
    if t == "string":
        return '"%s"' % text.replace("\\", "\\\\").replace('"', '\\"')
    if t in REALS:
        return text + ("" if "." in text else ".0") + t[0]
    return text


def step(n, j, s, t, way):
    u, v, d = "v%d_%d" % (n, j), "v%d_%d" % (n, j + 1), {"s": s, "t": t}
    d.update(u=u, v=v)
    return {
        "cast": "%(t)s %(v)s = cast<%(t)s>(%(u)s);",
        "arg": "%(t)s %(v)s = same_%(t)s(cast<%(t)s>(%(u)s));",
        "ret": "%(t)s %(v)s = %(s)s_%(t)s(%(u)s);",
        "box": "Box<%(t)s> b%(v)s = new Box<%(t)s>(cast<%(t)s>(%(u)s));\n%(t)s %(v)s = b%(v)s.get();",
        "self": "%(t)s %(v)s = cast<%(t)s>(cast<%(t)s>(%(u)s));",
        "init": "%(t)s %(v)s = %(u)s;",
        "assign": "%(t)s %(v)s;\n%(v)s = %(u)s;",
        "member": "h.m_%(t)s = %(u)s;\n%(t)s %(v)s = h.m_%(t)s;",
        "global": "g_%(t)s = %(u)s;\n%(t)s %(v)s = g_%(t)s;",
        "plus": "%(t)s %(v)s;\n%(v)s += %(u)s;",
        "add": "%(t)s z%(v)s;\n%(t)s %(v)s = z%(v)s + %(u)s;",
        "concat": "%(t)s %(v)s = \"\" + %(u)s;",
        "append": "%(t)s %(v)s;\n%(v)s += %(u)s;",
        "if": "%(t)s %(v)s;\nif ( %(u)s ) { %(v)s = true; } else { %(v)s = false; }",
        "ternary": "%(t)s %(v)s = %(u)s ? true : false;",
    }[way] % d


def program(cases):
    """one program for several cases; its lines are '#case.step=text'"""
    members, globs, funs, body = [], [], [], []
    for n, (t, text, how, route) in enumerate(cases):
        lit = literal(t, text)
        if how == "member":
            members.append("\tpublic %s c%d = %s;" % (t, n, lit))
            body.append("%s v%d_0 = h.c%d;" % (t, n, n))
        elif how == "global":
            globs.append("%s c%d = %s;" % (t, n, lit))
            body.append("%s v%d_0 = c%d;" % (t, n, n))
        elif how == "default":
            funs.append("private %s d%d(%s p = %s) { return p; }" % (t, n, t, lit))
            body.append("%s v%d_0 = d%d();" % (t, n, n))
        else:
            body.append("%s v%d_0 = %s;" % (t, n, lit))
        body.append('print("#%d.0=" + cast<string>(v%d_0));' % (n, n))
        s = t
        for j, (t, way) in enumerate(route):
            body.append(step(n, j, s, t, way))
            body.append('print("#%d.%d=" + cast<string>(v%d_%d));' % (n, j + 1, n, j + 1))
            s = t
    for t in TYPES:
        members.append("\tpublic %s m_%s;" % (t, t))
        globs.append("%s g_%s;" % (t, t))
        funs.append("private %s same_%s(%s p) { return p; }" % (t, t, t))
        funs += ["private %s %s_%s(%s p) { return cast<%s>(p); }" % (t, s, t, s, t) for s in TYPES]
    return "\n".join(["public object H {"] + members + ["}", "public object Box<T> {", "\tprivate T v;",
                      "\tpublic void Constructor(T p) { this.v = p; }", "\tpublic T get() const { return v; }", "}"] + globs + funs +
                     ["public void Main(int argc, string args) modify {", "\tH h = new H();"] + ["\t" + b for b in body] + ["}", ""])


def check(chk, cases, label, batch=40):
    """cases: (type, literal text, way it is written, [(type, way), ...])"""
    t = ask(chk, "SlangValues", [{"start": {"t": c[0], "cs": list(c[1])}, "route": [r[0] for r in c[3]]} for c in cases], CFG)
    want = [None] * len(cases)
    for k, texts in t.tuples("VAL"):
        want[k - 1] = texts
    if any(w is None for w in want):
        raise CheckError("no values for some route")
    groups = [range(a, min(a + batch, len(cases))) for a in range(0, len(cases), batch)]

    def one(g):
        text = program([cases[n] for n in g])
        path = os.path.join(chk.scratch, "v%s_%d.os" % (label.replace(" ", ""), g[0]))
        with open(path, "w", newline="") as f:
            f.write(text)
        r = slang([path])
        os.remove(path)
        got = {}
        for line in ("\n" + r.out).split("\n#")[1:]:
            key, _, value = line.partition("=")
            got[key] = value[:-1] if value.endswith("\n") else value
        bad = []
        for a, n in enumerate(g):
            for j, w in enumerate(want[n]):
                if w == "?":
                    break
                if got.get("%d.%d" % (a, j)) != w[1:]:
                    bad.append((n, j, w[1:], got.get("%d.%d" % (a, j))))
                    break
        return r, bad

    compared = 0
    for g, (r, bad) in zip(groups, parallel(one, groups)):
        compared += len(g)
        for n, j, w, v in bad:
            c = cases[n]
            at = " ".join("-%s-> %s" % (x[1], x[0]) for x in c[3][:j])
            name = "%s %r (%s) %s" % (c[0], c[1], c[2], at)
            chk.violation("value:" + name, "%s: %s is %r, the specification says %r%s"
                          % (label, name, v, w, " (status %s: %s)" % (r.code, r.err.strip()[:200]) if v is None else ""),
                          {"program.os": program([c])})
    chk.traces += compared
    chk.sample({"part": label, "routes": len(cases), "left open": sum("?" in w for w in want)})
