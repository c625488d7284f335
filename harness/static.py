"""Binding of SlangStatic.tla: programs as trees for the specification, slang's verdict about the same programs."""
import os

import cases
from common import CheckError, parallel, slang
from lang import expand, infer, render


def _name(n):
    """names may carry a modifier: "x const" """
    t = n.split(" ")
    return t[0], "const" in t[1:]


NONE = {"k": "none"}


def _expr(e):
    if e is None:
        return NONE
    k = e["k"]
    if k == "lit":
        v = e["raw"]
        return {"k": "lit", "ty": e.get("ty") or {bool: "bool", int: "int", str: "string"}[type(v)]}
    if k == "raw":
        return {"k": "lit", "ty": e["ty"]}
    if k == "tern":
        return {"k": "tern", "c": _expr(e["c"]), "x": _expr(e["a"]), "y": _expr(e["b"])}
    r = {"k": k}
    for f in ("e", "l", "r"):
        if f in e:
            r[f] = _expr(e[f])
    for f in ("op", "p", "n", "mode", "cl", "ty"):
        if f in e:
            r[f] = e[f]
    if "a" in e:
        r["a"] = [_expr(x) for x in e["a"]]
    if k == "cast":
        r["dyn"] = e["style"] != "cast"
    return r


def _stmt(s):
    if s is None:
        return NONE
    k = s["k"]
    r = {"k": k}
    if k == "block":
        r["b"] = [_stmt(x) for x in s["b"]]
    elif k == "if":
        r.update(c=_expr(s["c"]), x=_stmt(s["a"]), y=_stmt(s["b"]))
    elif k == "while":
        r.update(c=_expr(s["c"]), b=_stmt(s["b"]))
    elif k == "for":
        r.update(i=_stmt(s["i"]), c=_expr(s["c"]), s=_stmt(s["s"]), b=_stmt(s["b"]))
    elif k == "foreach":
        n, c = _name(s["n"])
        r.update(ty=s["ty"], n=n, c=c, e=_expr(s["e"]), b=_stmt(s["b"]))
    elif k == "switch":
        r.update(e=_expr(s["e"]), cs=[{"v": _expr(c["v"]), "b": _stmt(c["b"])} for c in s["cs"]], d=_stmt(s["d"]))
    elif k == "try":
        r.update(b=_stmt(s["b"]), f=_stmt(s["f"]),
                 cs=[dict(zip(("n", "c"), _name(c["n"])), ty=c["ty"], b=_stmt(c["b"])) for c in s["cs"]])
    elif k == "decl":
        n, c = _name(s["n"])
        r.update(ty=s["ty"], n=n, c=c, e=_expr(s["e"]))
    elif k == "delete":
        r["p"] = s["p"]
    elif k not in ("break", "continue"):
        r["e"] = _expr(s["e"])
    return r


def _method(m):
    mods, vis = m["mods"].split(), m["vis"].split()
    ab = m["body"] == ["abstract"]
    const = "const" in mods or ("modify" not in mods and m["n"] not in ("Constructor", "Destructor"))
    return {"n": m["n"], "ret": m["ret"], "vis": vis[0], "st": "static" in vis or "static" in mods, "c": const, "ab": ab, "oper": "operator" in m["n"],
            "th": "throws" in mods, "body": [] if ab else [_stmt(s) for s in m["body"]],
            "ps": [{"n": _name(q["n"])[0], "ty": q["ty"], "hd": q["d"] is not None, "dt": "" if q["d"] is None else _expr(q["d"]).get("ty", "any"), "ref": "ref" in q["mods"].split(),
                    "c": "const" in q["mods"].split() or _name(q["n"])[1]} for q in m["ps"]]}


def view(p):
    p = expand(p)
    classes = {}
    for c in p["classes"]:
        fs = [{"n": _name(f[0])[0], "c": _name(f[0])[1], "ty": f[1], "vis": f[3].split()[0], "st": "static" in f[3]} for f in c["fields"]]
        fs += [{"n": s[0], "c": False, "ty": s[1], "vis": "public", "st": True} for s in c.get("statics", ())]
        classes[c["n"]] = {"base": c["base"] or "", "ifaces": c["ifaces"], "fs": fs, "ms": [_method(m) for m in c["methods"]],
                           "kind": c["mods"] if c["mods"] in ("abstract", "interface") else "class"}
    enums = p.get("enums", [])
    return {"classes": classes, "funcs": [_method(m) for m in p["funcs"]],
            "globals": [{"n": _name(g[0])[0], "c": _name(g[0])[1], "ty": g[1]} for g in p["globals"]],
            "enums": {e[0]: [x[0] for x in e[1]] for e in enums},
            "enumdecl": [[{"n": n, "has": v is not None, "v": v if v is not None else 0} for n, v in e[1]] for e in enums],
            "main": _method({"n": "Main", "ps": [{"n": "argc", "ty": "int", "d": None, "mods": ""}, {"n": "args", "ty": "string", "d": None, "mods": ""}],
                             "ret": p["ret"], "body": p["main"], "mods": "modify throws", "vis": "public"})}


def ask(chk, progs):
    """for every program: (set of broken rules, set of unspecified points)"""
    t = cases.ask(chk, "SlangStatic", [view(p) for p in progs], "CONSTANT Chunk = 25\n")
    res = {x[0] - 1: (set(x[1]), set(x[2])) for x in t.tuples("STATIC")}
    if len(res) != len(progs):
        raise CheckError("SlangStatic judged %d of %d programs" % (len(res), len(progs)))
    return [res[i] for i in range(len(progs))]


def errors(r):
    return [l for l in (r.out + "\n" + r.err).split("\n") if "[ERROR]" in l]


def check(chk, progs, names, run=True, marker="start", late=("abstract",)):
    """slang has to reject what breaks a rule and to accept (and run without failure) what does not.

    Every program prints marker first: a rejected program prints nothing.  A program that instantiates an abstract class
    may also be stopped when the instance is about to be created (rules in late)."""
    more = [(n + "/var", infer(q)) for i, (n, q) in enumerate(zip(names, progs)) if i % 3 == 0 and not n.startswith("constmember/")]
    progs = list(progs) + [q for n, q in more if q]
    names = list(names) + [n for n, q in more if q]
    verdicts = ask(chk, progs)
    todo = [i for i, (bad, opn) in enumerate(verdicts) if bad or not opn]

    def one(i):
        path = os.path.join(chk.scratch, "s%d.os" % i)
        src = render(progs[i])
        with open(path, "w") as f:
            f.write(src)
        r = slang([path] if run or verdicts[i][0] else ["--syntax", path], timeout=20)
        os.remove(path)
        return src, r

    for i, (src, r) in zip(todo, parallel(one, todo)):
        bad, opn = verdicts[i]
        started = marker in r.out
        what = None
        if bad:
            if r.code == 0 and not r.timeout:
                what = "accepted and executed although it breaks the rule(s) %s" % ", ".join(sorted(bad))
            elif started and not bad <= set(late):
                what = "executed until it failed although it breaks the rule(s) %s" % ", ".join(sorted(bad))
        elif not run:
            if r.code != 0:
                what = "rejected although no rule is broken"
        elif not started:
            what = "rejected although no rule is broken"
        elif r.code != 0 or "end" not in r.out or r.timeout:
            what = "accepted but failed while running"
        if what:
            chk.violation(names[i], "program %s is %s\n%s" % (names[i], what, "\n".join(errors(r)[:3])),
                          {"program.os": src, "output.txt": r.out + r.err,
                           "run.txt": "SLANG_LIBRARY=/repo/Projects/Library slang program.os\nexit status %d\n" % r.code})
        else:
            chk.traces += 1
            chk.sample({"program": src[:1200], "broken rules": sorted(bad), "exit": r.code})
    n = chk.extra.setdefault("verdicts", {"accepted": 0, "rejected": 0, "unspecified": 0})
    for bad, opn in verdicts:
        n["rejected" if bad else "unspecified" if opn else "accepted"] += 1
    return verdicts
