"""Slang programs as trees: rendering to source text and flattening to the tables read by SlangMachine.tla.

A node is a dict with a kind "k".  Expressions and statements are built with the functions below, so that a
generator describes a program once and both the interpreter and the specification get the same program.
"""
import json

# ---------------------------------------------------------------- expressions


def val(v):
    if isinstance(v, bool):
        return {"t": "bool", "i": 1 if v else 0, "s": ""}
    if isinstance(v, int):
        return {"t": "int", "i": v, "s": ""}
    if v is None:
        return {"t": "obj", "i": 0, "s": ""}
    return {"t": "string", "i": 0, "s": v}


def lit(v):
    return {"k": "lit", "v": val(v), "raw": v}


def get(*p):
    return {"k": "get", "p": list(p)}


this = {"k": "this"}


def un(op, e):
    return {"k": "un", "op": op, "e": e}


def bin_(op, l, r, rt="int"):
    return {"k": "bin", "op": op, "l": l, "r": r, "rt": rt}


def and_(l, r):
    return {"k": "and", "l": l, "r": r}


def or_(l, r):
    return {"k": "or", "l": l, "r": r}


def tern(c, a, b):
    return {"k": "tern", "c": c, "a": a, "b": b}


def asg(p, e, op="="):
    return {"k": "asg", "p": [p] if isinstance(p, str) else list(p), "op": op, "e": e}


def inc(p, op="+"):
    return {"k": "inc", "p": [p] if isinstance(p, str) else list(p), "op": op}


def fun(n, args=(), at=()):
    return {"k": "call", "mode": "fun", "n": n, "a": list(args), "at": list(at)}


def self_(n, args=(), at=()):
    return {"k": "call", "mode": "self", "n": n, "a": list(args), "at": list(at)}


def base(n, args=(), at=()):
    return {"k": "call", "mode": "base", "n": n, "a": list(args), "at": list(at)}


def stat(cl, n, args=(), at=()):
    return {"k": "call", "mode": "stat", "cl": cl, "n": n, "a": list(args), "at": list(at)}


def meth(p, n, args=(), at=()):
    """p: path of names, or an expression (chained call)"""
    if isinstance(p, dict):
        return {"k": "call", "mode": "expr", "r": p, "n": n, "a": list(args), "at": list(at)}
    return {"k": "call", "mode": "path", "p": [p] if isinstance(p, str) else list(p), "n": n, "a": list(args), "at": list(at)}


def opm(recv, op, arg=None, rt="int"):
    """an operator applied to an object: a call of its operator method, written as operator"""
    c = meth(recv, "operator" + op, [] if arg is None else [arg], [] if arg is None else [rt])
    c["sugar"] = op
    return c


def copy_(p):
    """copy p stands for a call of Copy"""
    c = meth(p, "Copy")
    c["sugar"] = "copy"
    return c


def ne(recv, arg, rt, op="!="):
    """a != b (and a !== b) on objects stands for !(a == b)"""
    return {"k": "un", "op": "!", "e": opm(recv, "==", arg, rt), "sugar": op}


def cmp_asg(target, op, arg, rt):
    """x += y on objects stands for x = x + y"""
    r = [target] if isinstance(target, str) else list(target)
    a = asg(r if len(r) > 1 else r[0], opm(target, op, arg, rt))
    a["sugar"] = op + "="
    return a


def new(cl, args=(), at=(), src=None):
    return {"k": "new", "n": cl, "a": list(args), "at": list(at), "src": src or cl}


def cast(ty, e, style="cast"):
    return {"k": "cast", "ty": ty, "e": e, "style": style}


def is_(e, ty):
    return {"k": "is", "e": e, "ty": ty}


def typeid(e):
    return {"k": "typeid", "e": e}


def typed(ty, text):
    """source text of known type (for SlangStatic only)"""
    return {"k": "raw", "ty": ty, "text": text}


def enumv(ty, n):
    """constant n of enumeration ty"""
    return {"k": "enum", "ty": ty, "n": n}


def null(ty):
    return {"k": "lit", "v": val(None), "raw": None, "ty": ty}


# ---------------------------------------------------------------- statements

def block(*b):
    return {"k": "block", "b": list(b)}


def if_(c, a, b=None):
    return {"k": "if", "c": c, "a": a, "b": b}


def while_(c, b):
    return {"k": "while", "c": c, "b": b}


def for_(i, c, s, b):
    return {"k": "for", "i": i, "c": c, "s": s, "b": b}


def foreach(ty, n, e, b):
    return {"k": "foreach", "ty": ty, "n": n, "e": e, "b": b}


def switch(e, cases, d=None):
    return {"k": "switch", "e": e, "cs": [{"v": v, "b": b} for v, b in cases], "d": d}


def break_():
    return {"k": "break"}


def continue_():
    return {"k": "continue"}


def ret(e=None):
    return {"k": "return", "e": e}


def throw(e=None):
    return {"k": "throw", "e": e}


def try_(b, catches=(), f=None):
    """catches: (type or "", name, block)"""
    return {"k": "try", "b": b, "cs": [{"ty": t, "n": n, "b": x} for t, n, x in catches], "f": f}


def exit_(e):
    return {"k": "exit", "e": e}


def expr(e):
    return {"k": "expr", "e": e}


def print_(e):
    return {"k": "print", "e": e}


def assert_(e):
    return {"k": "assert", "e": e}


def decl(ty, n, e=None):
    return {"k": "decl", "ty": ty, "n": n, "e": e}


def delete(*p):
    return {"k": "delete", "p": list(p)}


# ---------------------------------------------------------------- declarations

def param(n, ty, d=None, mods=""):
    return {"n": n, "ty": ty, "d": d, "mods": mods}


def method(n, ps, ret_, body, mods="modify", vis="public"):
    return {"n": n, "ps": [p if isinstance(p, dict) else param(*p) for p in ps], "ret": ret_, "body": list(body),
            "mods": mods, "vis": vis}


def cls(n, fields=(), methods=(), base=None, ifaces=(), mods="", generic=None):
    """fields: (name, type[, initial value[, visibility]])"""
    return {"n": n, "fields": [tuple(f) + (None, "private")[len(f) - 2:] for f in fields], "methods": list(methods),
            "base": base, "ifaces": list(ifaces), "mods": mods, "generic": generic}


def program(classes, funcs, main, globals_=(), ret_="int", pre="", post=""):
    """globals_: (name, type, value)"""
    return {"classes": list(classes), "funcs": list(funcs), "main": list(main), "globals": list(globals_), "ret": ret_,
            "pre": pre, "post": post}


# ---------------------------------------------------------------- source text

def quote(t):
    return '"' + t + '"'


def r_lit(e):
    v = e["raw"]
    if v is None:
        return e.get("ty", "object") + " null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    return quote(v)


def r_args(a):
    return "(" + ", ".join(r_expr(x) for x in a) + ")"


def r_expr(e, sub=False):
    k = e["k"]
    if "sugar" in e:
        c = e["e"] if k in ("un", "asg") else e
        t = ".".join(c["p"]) if c["mode"] == "path" else r_expr(c["r"], True)
        if e["sugar"] == "copy":
            return "(copy " + t + ")" if sub else "copy " + t
        if e["sugar"] == "[]":
            return t + "[" + r_expr(c["a"][0]) + "]"
        if not c["a"]:
            return t + e["sugar"]
        t += " " + e["sugar"] + " " + r_expr(c["a"][0], True)
        return "(" + t + ")" if sub else t
    if k == "raw":
        return e["text"]
    if k == "enum":
        return e.get("text", e["ty"] + "." + e["n"])
    if k == "lit":
        return r_lit(e)
    if k == "this":
        return "this"
    if k == "get":
        return ".".join(e["p"])
    if k == "un":
        x = r_expr(e["e"], True)
        if e["e"]["k"] == "call" and e["e"]["mode"] == "expr":
            x = "(" + x + ")"       # a prefix operator binds to the first call of a chain only
        t = e["op"] + x
    elif k == "bin":
        t = r_expr(e["l"], True) + " " + e["op"] + " " + r_expr(e["r"], True)
    elif k in ("and", "or"):
        t = r_expr(e["l"], True) + (" && " if k == "and" else " || ") + r_expr(e["r"], True)
    elif k == "tern":
        t = r_expr(e["c"], True) + " ? " + r_expr(e["a"], True) + " : " + r_expr(e["b"], True)
    elif k == "asg":
        t = ".".join(e["p"]) + " " + ("=" if e["op"] == "=" else e["op"] + "=") + " " + r_expr(e["e"])
    elif k == "inc":
        return ".".join(e["p"]) + e["op"] * 2
    elif k == "call":
        m = e["mode"]
        pre = {"fun": "", "self": "", "base": "base.", "stat": e.get("cl", "") + ".",
               "path": ".".join(e.get("p", [])) + ".", "expr": ""}[m]
        if m == "expr":
            pre = r_expr(e["r"]) + "."
        return pre + e["n"] + r_args(e["a"])
    elif k == "new":
        t = "new " + e["src"] + r_args(e["a"])
        return t
    elif k == "cast":
        if e["style"] == "":
            return r_expr(e["e"], sub)      # converted by the assignment around it
        if e["style"] == "cast":
            return "cast<" + e["ty"] + ">(" + r_expr(e["e"]) + ")"
        t = e["ty"] + " " + r_expr(e["e"], True)
    elif k == "is":
        t = r_expr(e["e"], True) + " is " + e["ty"]
    elif k == "typeid":
        return "typeid(" + r_expr(e["e"]) + ")"
    else:
        raise ValueError(k)
    return "(" + t + ")" if sub else t


def r_simple(s):
    """a statement without its semicolon (for the head of a for loop)"""
    if s is None:
        return ""
    if s["k"] == "decl":
        return ("var" if s.get("var") else s["ty"]) + " " + s["n"] + (" = " + r_expr(s["e"]) if s["e"] is not None else "")
    return r_expr(s["e"])


def r_stmt(s, ind):
    pad = "\t" * ind
    k = s["k"]
    if k == "block":
        return pad + "{\n" + "".join(r_stmt(x, ind + 1) for x in s["b"]) + pad + "}\n"
    if k == "if":
        t = pad + "if ( " + r_expr(s["c"]) + " )\n" + r_stmt(s["a"], ind)
        if s["b"] is not None:
            t += pad + "else\n" + r_stmt(s["b"], ind)
        return t
    if k == "while":
        return pad + "while ( " + r_expr(s["c"]) + " )\n" + r_stmt(s["b"], ind)
    if k == "for":
        return (pad + "for ( " + r_simple(s["i"]) + "; " + (r_expr(s["c"]) if s["c"] else "") + "; " + r_simple(s["s"]) + " )\n" +
                r_stmt(s["b"], ind))
    if k == "foreach":
        return pad + "foreach ( " + s["ty"] + " " + s["n"] + " : " + r_expr(s["e"]) + " )\n" + r_stmt(s["b"], ind)
    if k == "switch":
        t = pad + "switch ( " + r_expr(s["e"]) + " ) {\n"
        for c in s["cs"]:
            t += pad + "\tcase " + r_expr(c["v"]) + ":\n" + r_stmt(c["b"], ind + 1)
        if s["d"] is not None:
            t += pad + "\tdefault:\n" + r_stmt(s["d"], ind + 1)
        return t + pad + "}\n"
    if k in ("break", "continue"):
        return pad + k + ";\n"
    if k in ("return", "throw"):
        return pad + k + (" " + r_expr(s["e"]) if s["e"] is not None else "") + ";\n"
    if k == "try":
        t = pad + "try\n" + r_stmt(s["b"], ind)
        for c in s["cs"]:
            t += pad + "catch" + (" ( " + c["ty"] + " " + c["n"] + " )" if c["ty"] else "") + "\n" + r_stmt(c["b"], ind)
        if s["f"] is not None:
            t += pad + "finally\n" + r_stmt(s["f"], ind)
        return t
    if k == "exit":
        return pad + "exit(" + r_expr(s["e"]) + ");\n"
    if k == "expr":
        return pad + r_expr(s["e"]) + ";\n"
    if k == "print":
        return pad + "print(" + r_expr(s["e"]) + ");\n"
    if k == "assert":
        return pad + "assert(" + r_expr(s["e"]) + ");\n"
    if k == "decl":
        return pad + r_simple(s) + ";\n"
    if k == "delete":
        return pad + "delete " + ".".join(s["p"]) + ";\n"
    raise ValueError(k)


def r_method(m, ind):
    pad = "\t" * ind
    ps = []
    for p in m["ps"]:
        t = p["ty"] + " " + p["n"] + (" " + p["mods"] if p["mods"] else "")
        if p["d"] is not None:
            t += " = " + r_expr(p["d"])
        ps.append(t)
    t = pad + m["vis"] + " " + m["ret"] + " " + m["n"] + "(" + ", ".join(ps) + ")" + (" " + m["mods"] if m["mods"] else "")
    if m["body"] == ["abstract"]:
        return t + ";\n"
    return t + "\n" + pad + "{\n" + "".join(r_stmt(s, ind + 1) for s in m["body"]) + pad + "}\n"


def r_class(c):
    t = "public " + (c["mods"] + " " if c["mods"] else "") + "object " + c["n"].split("<")[0]
    if c["mods"] == "interface":
        t = "public interface " + c["n"]
    if c["generic"]:
        t += "<" + ", ".join(v.replace(":", ": ") for v in c["generic"]) + ">"
    if c["base"]:
        t += " extends " + c["base"]
    if c["ifaces"]:
        t += " implements " + ", ".join(c["ifaces"])
    t += " {\n"
    for e in c.get("enums", ()):
        t += "".join("\t" + l + "\n" for l in r_enum(e).splitlines())
    for f in c["fields"]:
        t += "\t" + f[3] + " " + f[1] + " " + f[0]
        if f[2] is not None:
            t += " = " + r_lit(lit(f[2]))
        t += ";\n"
    for s in c.get("statics", ()):
        t += "\tpublic static %s %s = %s;\n" % (s[1], s[0], r_lit(lit(s[2])))
    b = "".join(r_method(m, 1) for m in c["methods"])
    for long, short in c.get("short", {}).items():
        # inside the class its static members are written without the name of the class
        b = b.replace(long, short)
    return t + b + "}\n"


def r_enum(e):
    """(name, [(constant, number or None)]); a.b is enumeration b of namespace a"""
    if "." in e[0]:
        a, b = e[0].split(".", 1)
        return "public namespace %s {\n%s}\n" % (a, r_enum((b,) + tuple(e[1:])))
    return "public enum %s {\n\t%s;\n}\n" % (e[0], ", ".join(n if v is None else "%s = %d" % (n, v) for n, v in e[1]))


def render(p):
    t = "#!/usr/bin/env slang\n" + p["pre"]
    gl = ""
    for g in p["globals"]:
        if "." not in g[0]:
            gl += "private %s %s%s;\n" % (g[1], g[0], " = " + r_lit(lit(g[2])) if g[2] is not None else "")
    if not p.get("late_globals"):
        t += gl
    for e in p.get("enums", ()):
        if not e[0].split(".")[0] in {c["n"] for c in p["classes"]}:
            t += r_enum(e)
    for c in p["classes"]:
        if not c.get("hidden"):
            t += r_class(c)
    if p.get("late_globals"):
        t += gl             # globals of the program's own classes
    for f in p["funcs"]:
        t += r_method(f, 0)
    t += "public " + p["ret"] + " Main(int argc, string args) modify throws\n{\n"
    t += "".join(r_stmt(s, 1) for s in p["main"]) + "}\n" + p["post"]
    return t


# ---------------------------------------------------------------- generic classes

def type_args(ty):
    """"Pair<int,string>" -> ("Pair", ["int", "string"])"""
    if not ty.endswith(">") or "<" not in ty:
        return None
    g, a = ty[:-1].split("<", 1)
    return g, a.split(",")


def expand(p):
    """The program with every generic class written out by hand for the type arguments it is used with."""
    gen = {c["n"]: c for c in p["classes"] if c["generic"]}
    if not gen:
        return p
    done, todo = {}, []

    def name(t, m):
        t = m.get(t, t)
        x = type_args(t)
        if x and x[0] in gen:
            t = "%s<%s>" % (x[0], ",".join(m.get(a, a) for a in x[1]))
            if not any(t == "%s<%s>" % (g, ",".join(v.split(":")[0] for v in c["generic"])) for g, c in gen.items()) or m:
                todo.append(t)
        return t

    def walk(n, m):
        if isinstance(n, str):
            return name(n, m)
        if isinstance(n, dict):
            return {k: (v if k in ("v", "raw", "k", "op", "mods", "vis", "sugar") and not isinstance(v, dict) or k == "raw" or
                        (k == "v" and n.get("k") == "lit") else walk(v, m)) for k, v in n.items()}
        if isinstance(n, (list, tuple)):
            return type(n)(walk(x, m) for x in n)
        return n

    q = {k: walk(v, {}) for k, v in p.items() if k in ("funcs", "main", "globals")}
    classes = [walk(c, {}) for c in p["classes"] if not c["generic"]]
    while todo:
        t = todo.pop()
        if t in done:
            continue
        g, args = type_args(t)
        c = gen[g]
        names = [v.split(":")[0] for v in c["generic"]]
        assert len(names) == len(args), t
        done[t] = None
        x = walk({k: v for k, v in c.items() if k not in ("n", "generic")}, dict(zip(names, args)))
        x["n"], x["generic"] = t, None
        done[t] = x
    r = dict(p)
    r.update(q)
    r["classes"] = classes + list(done.values())
    return r


# ---------------------------------------------------------------- tables for the specification

EXPR_KEYS = {"un": ["e"], "bin": ["l", "r"], "and": ["l", "r"], "or": ["l", "r"], "tern": ["c", "a", "b"],
             "asg": ["e"], "cast": ["e"], "is": ["e"], "typeid": ["e"]}
STMT_KEYS = {"if": ["c", "a", "b"], "while": ["c", "b"], "for": ["i", "c", "s", "b"], "foreach": ["e", "b"],
             "return": ["e"], "throw": ["e"], "exit": ["e"], "expr": ["e"], "print": ["e"], "assert": ["e"],
             "decl": ["e"]}


def infer(p):
    """the program with the declared types left out (var) where the initial value has exactly that type; None if there is no such place"""
    found = []

    def fits(s):
        e = s["e"]
        if not isinstance(e, dict) or "ref" in s["n"].split() or "<" in s["ty"]:
            return False
        if e["k"] == "new":
            return e["src"] == s["ty"]
        raw = e.get("raw") if e["k"] == "lit" else None
        return {bool: "bool", str: "string", int: "int"}.get(type(raw)) == s["ty"] and not (s["ty"] == "int" and abs(raw) > 2**31 - 1)

    def go(n):
        if isinstance(n, dict):
            if n.get("k") == "decl" and fits(n):
                found.append(n)
                return dict({x: go(y) for x, y in n.items()}, var=True)
            return {x: go(y) for x, y in n.items()}
        if isinstance(n, (list, tuple)):
            return type(n)(go(x) for x in n)
        return n
    r = go(p)
    return r if found else None


def flatten(p):
    p = expand(p)
    nodes = []

    def add(n):
        nodes.append(n)
        return len(nodes)

    def go(n):
        if n is None:
            return 0
        k = n["k"]
        r = {x: y for x, y in n.items() if x not in ("raw", "src", "style", "sugar", "text", "var")}
        if k == "decl" and n["e"] is None and n["ty"] in enums:
            r["e"] = add({"k": "lit", "v": default(n["ty"], None)})
            return add(r)
        for x in EXPR_KEYS.get(k, STMT_KEYS.get(k, [])):
            r[x] = go(n[x])
        if k in ("call", "new"):
            r["a"] = [go(x) for x in n["a"]]
            if "r" in n:
                r["r"] = go(n["r"])
        elif k == "block":
            r["b"] = [go(x) for x in n["b"]]
        elif k == "switch":
            r["e"] = go(n["e"])
            r["cs"] = [{"v": go(c["v"]), "b": go(c["b"])} for c in n["cs"]]
            r["d"] = go(n["d"])
        elif k == "try":
            r["b"] = go(n["b"])
            r["cs"] = [{"ty": c["ty"], "n": c["n"], "b": go(c["b"])} for c in n["cs"]]
            r["f"] = go(n["f"])
        return add(r)

    def body(b):
        return add({"k": "body", "b": [go(x) for x in b]})

    def meths(ms):
        return [{"n": m["n"], "ps": [{"n": x["n"], "ty": x["ty"], "hd": x["d"] is not None,
                                      "d": x["d"]["v"] if x["d"] is not None else val(0)} for x in m["ps"]],
                 "body": body(m["body"])} for m in ms if m["body"] != ["abstract"]]

    by = {c["n"]: c for c in p["classes"]}
    enums = {e[0] for e in p.get("enums", ())}

    def anc(n):
        return [n] + (anc(by[n]["base"]) if by[n]["base"] else [])

    def isa(n):
        res = []
        for a in anc(n):
            res.append(a)
            for i in by[a]["ifaces"]:
                res += isa(i) if i in by else [i]
        return sorted(set(res))

    def default(ty, v):
        if v is not None:
            return val(v)
        if ty in enums:
            return {"t": "enum", "i": 0, "s": ty}
        return {"int": val(0), "bool": val(False), "string": val("")}.get(ty, val(None))

    classes = {"$global": {"anc": ["$global"], "isa": ["$global"], "ms": meths(p["funcs"]), "allf": []}}
    for c in p["classes"]:
        f = []
        for a in reversed(anc(c["n"])):
            f += [{"cl": a, "n": x[0], "v": default(x[1], x[2])} for x in by[a]["fields"]]
        classes[c["n"]] = {"anc": anc(c["n"]), "isa": isa(c["n"]), "ms": meths(c["methods"]), "allf": f}
    main = body(p["main"])
    return {"nodes": nodes, "classes": classes, "main": main,
            "enums": [{"n": e[0], "es": [{"n": n, "has": v is not None, "v": v if v is not None else 0} for n, v in e[1]]} for e in p.get("enums", ())],
            "globals": [{"n": g[0], "v": default(g[1], g[2])} for g in p["globals"]]}


def size(p):
    return len(json.dumps(flatten(p)))
