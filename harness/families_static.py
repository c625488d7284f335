"""Programs about the static rules (SlangStatic.tla decides which of them have to be rejected)."""
import copy
import itertools

from families import p, seq_classes
from lang import *

TYPES = ["bool", "int16", "int", "int64", "float", "double", "string", "Col", "Oth", "P", "Q"]
TEXT = {"bool": "true", "int16": "3", "int": "3", "int64": "3", "float": "1.5f", "double": "2.5d", "string": '"s"', "Col": "Col.RED", "Oth": "Oth.ONE"}
ENUMS = [("Col", [("RED", None), ("BLUE", 4)]), ("Oth", [("ONE", 1)])]
OPS = ["+", "-", "*", "/", "%", "&", "|", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]


def value(ty):
    if ty in ("P", "Q"):
        return new(ty)
    return typed("int" if ty == "int16" else ty, TEXT[ty])


def pq():
    return [cls("P", [("x", "int", 1, "public")], [method("m", [], "int", [ret(get("x"))], "const")]),
            cls("Q", [("y", "int", 2, "public")], [], base="P")]


def setup(*types):
    """variables a<type>, b<type> of every type"""
    b = [p("start")]
    for t in dict.fromkeys(types):
        for v in "ab":
            b.append(decl(t, v + t, value(t)))
    return b


def prog(body, funcs=(), classes=(), types=(), globals_=()):
    r = program(pq() + list(classes), list(funcs), setup(*types) + list(body) + [p("end"), ret(lit(0))], globals_)
    r["enums"] = ENUMS
    r["late_globals"] = True
    return r


# ---------------------------------------------------------------- S01

def types():
    two = list(itertools.product(TYPES, TYPES))
    for op in OPS:
        for l, r in two:
            mk = {"&&": and_, "||": or_}.get(op, lambda x, y: bin_(op, x, y))
            yield "bin/%s/%s/%s" % (op, l, r), prog([p("v"), if_(mk(get("a" + l), get("b" + r)), block(p("x")))], types=(l, r))
    for op in ["+", "-", "*", "/", "%"]:
        for l, r in two:
            yield "cmp/%s/%s/%s" % (op, l, r), prog([expr(asg("a" + l, get("b" + r), op))], types=(l, r))
    for l, r in two:
        yield "init/%s/%s" % (l, r), prog([decl(l, "z", get("a" + r))], types=(r,))
        yield "assign/%s/%s" % (l, r), prog([expr(asg("a" + l, get("b" + r)))], types=(l, r))
        yield "member/%s/%s" % (l, r), prog([decl("K", "k", new("K")), expr(asg(["k", "f"], get("a" + r)))], types=(r,),
                                           classes=[cls("K", [("f", l, None, "public")])])
        yield "global/%s/%s" % (l, r), prog([expr(asg("gv", get("a" + r)))], types=(r,), globals_=[("gv", l, None)])
        f = method("f", [param("v", l)], "void", [p("f")], "modify", "private")
        yield "arg/%s/%s" % (l, r), prog([expr(fun("f", [get("a" + r)]))], [f], types=(r,))
        f2 = method("f", [param("n", "int"), param("v", l)], "void", [p("f")], "modify", "private")
        yield "arg2/%s/%s" % (l, r), prog([expr(fun("f", [lit(1), get("a" + r)]))], [f2], types=(r,))
        k = cls("K", [], [method("f", [param("v", l)], "void", [p("f")], "modify")])
        yield "marg/%s/%s" % (l, r), prog([decl("K", "k", new("K")), expr(meth("k", "f", [get("a" + r)]))], classes=[k], types=(r,))
        k = cls("K", [], [method("Constructor", [param("v", l)], "void", [p("f")], "")])
        yield "carg/%s/%s" % (l, r), prog([decl("K", "k", new("K", [get("a" + r)]))], classes=[k], types=(r,))
        g = method("f", [], l, [decl(r, "z", value(r)), ret(get("z"))], "modify", "private")
        yield "return/%s/%s" % (l, r), prog([expr(fun("f"))], [g])
        yield "tern/%s/%s" % (l, r), prog([if_(tern(lit(True), get("a" + l), get("b" + r)), block(p("x")))], types=(l, r))
        yield "cast/%s/%s" % (l, r), prog([decl(l, "z", cast(l, get("a" + r)))], types=(r,))
        if l not in ("P", "Q") or r not in ("P", "Q"):
            yield "case/%s/%s" % (l, r), prog([switch(get("a" + l), [(get("b" + r), block(p("c"), break_()))], block(p("d"), break_()))], types=(l, r))
        if r not in ("P", "Q", "Col", "Oth"):
            d = method("f", [param("v", l, typed("int" if r in ("int16", "int64") else r, TEXT[r]))], "void", [p("f")], "modify", "private")
            yield "default/%s/%s" % (l, r), prog([expr(fun("f"))], [d])
    for t in TYPES:
        for op in "+-!":
            yield "un/%s/%s" % (op, t), prog([if_(un(op, get("a" + t)), block(p("x")))], types=(t,))
        for op in "+-":
            yield "inc/%s/%s" % (op, t), prog([expr(inc("a" + t, op))], types=(t,))
        yield "each/" + t, prog([foreach("int", "i", get("a" + t), block(p("x")))], types=(t,))
        yield "step/" + t, prog([decl("int", "i", get("a" + t, "x"))], types=(t,))
        yield "call/" + t, prog([decl("int", "i", meth("a" + t, "m"))], types=(t,))
        yield "nomember/" + t, prog([decl("int", "i", get("a" + t, "nothing"))], types=(t,))
        yield "nomethod/" + t, prog([decl("int", "i", meth("a" + t, "nothing"))], types=(t,))


def argument_counts():
    """calls with every number of arguments against every number of (defaulted) parameters"""
    for n in range(4):
        for d in range(n + 1):
            for a in range(5):
                ps = [param("p%d" % i, "int", lit(i) if i >= n - d else None) for i in range(n)]
                args = [lit(i) for i in range(a)]
                yield "count/fun/%d-%d-%d" % (n, d, a), prog([expr(fun("f", args))], [method("f", ps, "void", [p("f")], "modify", "private")])
                k = cls("K", [], [method("f", ps, "void", [p("f")], "modify"),
                                  method("h", [], "void", [expr(self_("f", args))], "modify")])
                yield "count/meth/%d-%d-%d" % (n, d, a), prog([decl("K", "k", new("K")), expr(meth("k", "f", args))], classes=[k])
                c = cls("K", [], [method("Constructor", ps, "void", [p("f")], "")])
                yield "count/new/%d-%d-%d" % (n, d, a), prog([decl("K", "k", new("K", args))], classes=[c])
                b = cls("B", [], [method("Constructor", [], "void", [expr(base("Constructor", args))], "")], base="K")
                yield "count/base/%d-%d-%d" % (n, d, a), prog([decl("B", "k", new("B"))], classes=[c, b])


def expr_positions(e):
    """(name, statements, extra functions): e, a bool expression, in every place an expression can stand"""
    v = get("flag")
    yield "print", [print_(e)]
    yield "init", [decl("bool", "z", e)]
    yield "assign", [expr(asg("flag", e))]
    yield "if", [if_(e, block(p("x")))]
    yield "if-noblock", [if_(e, p("x"))]
    yield "elseif", [if_(v, block(p("x")), if_(e, block(p("y"))))]
    yield "then", [if_(v, block(expr(asg("flag", e))))]
    yield "else", [if_(v, block(p("x")), block(expr(asg("flag", e))))]
    yield "while", [while_(and_(lit(False), e), block(p("x")))]
    yield "while-body", [while_(lit(True), block(expr(asg("flag", e)), break_()))]
    yield "for-init", [for_(decl("bool", "z", e), lit(False), asg_s("flag", v), block(p("x")))]
    yield "for-cond", [for_(decl("int", "i", lit(0)), and_(lit(False), e), asg_s("i", lit(1)), block(p("x")))]
    yield "for-step", [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(1)), asg_s("flag", e), block(p("x"), break_()))]
    yield "for-body", [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(1)), asg_s("i", lit(1)), block(expr(asg("flag", e)), break_()))]
    yield "foreach", [foreach("int", "i", tern(e, get("seq"), get("seq")), block(p("x"), break_()))]
    yield "foreach-body", [foreach("int", "i", get("seq"), block(expr(asg("flag", e)), break_()))]
    yield "switch", [switch(e, [(lit(True), block(p("x"), break_()))], block(p("y"), break_()))]
    yield "case", [switch(lit(True), [(v, block(break_())), (e, block(p("x"), break_()))], block(p("y"), break_()))]
    yield "case-body", [switch(lit(True), [(v, block(expr(asg("flag", e)), break_()))])]
    yield "default-body", [switch(lit(True), [(v, block(break_()))], block(expr(asg("flag", e)), break_()))]
    yield "try", [try_(block(expr(asg("flag", e))), [("", "", block(p("c")))])]
    yield "catch", [try_(block(p("t")), [("string", "s", block(expr(asg("flag", e))))])]
    yield "catch-all", [try_(block(p("t")), [("string", "s", block(p("s"))), ("", "", block(expr(asg("flag", e))))])]
    yield "finally", [try_(block(p("t")), [("string", "s", block(p("s")))], block(expr(asg("flag", e))))]
    yield "throw", [try_(block(throw(e)), [("", "", block(p("c")))])]
    yield "block", [block(block(expr(asg("flag", e))))]
    yield "arg", [expr(fun("take", [e, v]))]
    yield "arg2", [expr(fun("take", [v, e]))]
    yield "marg", [expr(meth("obj", "take", [e]))]
    yield "chain", [decl("bool", "z", meth(meth("obj", "me"), "take", [e]))]
    yield "chain-arg", [decl("bool", "z", meth(meth("obj", "me2", [e]), "take", [v]))]
    yield "new", [decl("Obj", "o2", new("Obj", [e]))]
    yield "new-arg", [expr(fun("takeObj", [new("Obj", [e])]))]
    yield "static", [expr(stat("Obj", "sTake", [e]))]
    yield "and-right", [decl("bool", "z", and_(v, e))]
    yield "or-right", [decl("bool", "z", or_(v, e))]
    yield "eq-right", [decl("bool", "z", bin_("==", v, e))]
    yield "eq-left", [decl("bool", "z", bin_("==", e, v))]
    yield "not", [decl("bool", "z", un("!", e))]
    yield "concat", [print_(bin_("+", lit("a"), e))]
    yield "tern-cond", [decl("bool", "z", tern(e, v, v))]
    yield "tern-then", [decl("bool", "z", tern(v, e, v))]
    yield "tern-else", [decl("bool", "z", tern(v, v, e))]
    yield "cast", [decl("string", "z", cast("string", e))]
    yield "typeid", [print_(typeid(e))]
    yield "assert", [assert_(or_(lit(True), e))]
    yield "nested-asg", [decl("bool", "z", bin_("==", asg("flag", e), v))]


def asg_s(n, e):
    return expr(asg(n, e))


def containers(th=" throws", pre=True):
    """(name, program builder): a list of statements in every kind of method"""
    tk = [method("take", [param("a", "bool"), param("b", "bool")], "void", [p("take")], "modify", "private"),
          method("takeObj", [param("a", "Obj")], "void", [p("take")], "modify", "private")]
    obj = cls("Obj", [], [method("Constructor", [param("a", "bool", lit(True))], "void", [p("ctor")], ""),
                          method("take", [param("a", "bool")], "bool", [ret(get("a"))], "const"),
                          method("me", [], "Obj", [ret(this)], "modify"), method("me2", [param("a", "bool")], "Obj", [ret(this)], "modify"),
                          method("sTake", [param("a", "bool")], "void", [p("st")], "", "public static")])
    hid = cls("Hid", [("open", "int", 1, "public"), ("prot", "int", 1, "protected"), ("priv", "int", 1, "private")], [
        method("secret", [], "bool", [ret(lit(True))], "const", "private"), method("get", [], "bool", [ret(lit(True))], "const"),
        method("set", [], "bool", [expr(inc("open")), ret(lit(True))], "modify"),
        method("sSecret", [], "bool", [ret(lit(True))], "", "private static")])
    pre = [] if not pre else [decl("bool", "flag", lit(True)), decl("Seq", "seq", new("Seq", [lit(1)])), decl("Obj", "obj", new("Obj")),
           decl("int", "num", lit(1)), decl("P", "thing", new("P")),
           decl("int", "cst const", lit(1)), decl("Hid", "hid", new("Hid")), decl("Hid", "chid const", new("Hid"))]

    def build(main=(), funcs=(), classes=()):
        return prog(main, tk + list(funcs), seq_classes() + [obj, hid] + list(classes))

    yield "Main", lambda b: build(pre + b)
    yield "function", lambda b: build([expr(fun("host"))], [method("host", [], "void", pre + b, "modify" + th, "private")])
    yield "method", lambda b: build([decl("Host", "h", new("Host")), expr(meth("h", "host"))],
                                    classes=[cls("Host", [], [method("host", [], "void", pre + b, "modify" + th)])])
    yield "const-method", lambda b: build([decl("Host", "h", new("Host")), expr(meth("h", "host"))],
                                          classes=[cls("Host", [], [method("host", [], "void", pre + b, "const" + th)])])
    yield "constructor", lambda b: build([decl("Host", "h", new("Host"))], classes=[cls("Host", [], [method("Constructor", [], "void", pre + b, th.strip())])])
    yield "destructor", lambda b: build([decl("Host", "h", new("Host"))], classes=[cls("Host", [], [method("Destructor", [], "void", pre + b, th.strip())])])
    yield "static", lambda b: build([expr(stat("Host", "host"))],
                                    classes=[cls("Host", [], [method("host", [], "void", pre + b, th.strip(), "public static")])])
    yield "operator", lambda b: build([decl("Host", "h", new("Host")), expr(meth("h", "operator+", [lit(1)]))],
                                      classes=[cls("Host", [], [method("operator+", [param("k", "int")], "bool", pre + b + [ret(lit(True))], "const" + th)])])
    yield "derived", lambda b: build([decl("Host", "h", new("Host")), expr(meth("h", "host"))],
                                     classes=[cls("Top", [], []), cls("Host", [], [method("host", [], "void", pre + b, "modify" + th)], base="Top")])
    yield "unused", lambda b: build([], [method("host", [], "void", pre + b, "modify" + th, "private")])
    yield "unused-method", lambda b: build([], classes=[cls("Host", [], [method("host", [], "void", pre + b, "modify" + th, "private")])])
    yield "generic", lambda b: build([decl("Host<int>", "h", new("Host<int>")), expr(meth("h", "host"))],
                                     classes=[cls("Host", [], [method("host", [], "void", pre + b, "modify" + th)], generic=["T"])])


FAULTS = [("good", bin_("==", get("num"), lit(1))), ("bool-int", bin_("==", get("flag"), get("num"))),
          ("string-int", bin_("==", lit("a"), get("num"))), ("class-int", bin_("==", get("thing"), get("num"))),
          ("minus-string", bin_("==", bin_("-", lit("a"), lit("b")), lit("a"))),
          ("unknown", get("nowhere")), ("unknown-function", fun("nowhere")), ("unknown-member", get("thing", "nowhere")),
          ("wrong-argument", meth("obj", "take", [lit(3)])), ("missing-argument", meth("obj", "take", [])),
          ("void", meth("obj", "nothing"))]


CONST_FAULTS = [("const-read", bin_("==", get("cst"), lit(1))), ("const-assign", bin_("==", asg("cst", lit(2)), lit(1))), ("const-add", bin_("==", asg("cst", lit(2), "+"), lit(1))),
                ("const-inc", bin_("==", inc("cst"), lit(1))), ("const-call", meth("chid", "set")), ("const-ok-call", meth("chid", "get")),
                ("plain-call", meth("hid", "set")), ("const-member", bin_("==", asg(["chid", "open"], lit(2)), lit(1))),
                ("plain-member", bin_("==", asg(["hid", "open"], lit(2)), lit(1)))]
VIS_FAULTS = [("public", bin_("==", get("hid", "open"), lit(1))), ("private", bin_("==", get("hid", "priv"), lit(1))), ("protected", bin_("==", get("hid", "prot"), lit(1))),
              ("private-write", bin_("==", asg(["hid", "priv"], lit(1)), lit(1))), ("private-call", meth("hid", "secret")), ("public-call", meth("hid", "get")),
              ("private-static", stat("Hid", "sSecret")), ("interface", bin_("==", new("Face"), new("Face")))]


def positions(faults, every=1):
    """every fault in every position of every kind of method (every n-th combination of fault and method)"""
    for i, (cn, mk) in enumerate(containers()):
        for j, (fn, e) in enumerate(faults):
            if (i + j) % every and j:
                continue
            for pn, st in expr_positions(e):
                q = mk(st)
                if fn == "interface":
                    q["classes"].append(cls("Face", [], [method("f", [], "int", ["abstract"], "const")], mods="interface"))
                yield "pos/%s/%s/%s" % (cn, fn, pn), q


def flow_positions():
    """jumps and throws in every statement position of every kind of method, methods without result in every kind of class"""
    v = lit(False)
    places = [("top", lambda s: [if_(v, s)]), ("then", lambda s: [if_(v, block(s))]), ("else", lambda s: [if_(lit(True), block(p("x")), block(s))]),
              ("block", lambda s: [if_(v, block(block(s)))]), ("while", lambda s: [while_(v, block(s))]),
              ("for", lambda s: [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(0)), expr(inc("i")), block(s))]),
              ("foreach", lambda s: [foreach("int", "i", new("Seq", [lit(0)]), block(s))]),
              ("while-bare", lambda s: [while_(v, s)]), ("while-if", lambda s: [while_(v, if_(v, s))]), ("for-bare", lambda s: [for_(None, v, None, s)]),
              ("foreach-bare", lambda s: [foreach("int", "i", new("Seq", [lit(0)]), if_(v, s, p("x")))]),
              ("after-while", lambda s: [while_(v, p("x")), if_(v, s)]), ("after-for", lambda s: [for_(None, v, None, if_(v, p("x"))), if_(v, block(s))]),
              ("case", lambda s: [switch(lit(1), [(lit(2), block(s))])]), ("default", lambda s: [switch(lit(1), [(lit(1), block(break_()))], block(s))]),
              ("try", lambda s: [if_(v, block(try_(block(s), [("int", "e", block(p("c")))])))]), ("try-all", lambda s: [if_(v, block(try_(block(s), [("", "", block(p("c")))])))]),
              ("try-string", lambda s: [if_(v, block(try_(block(s), [("string", "e", block(p("c")))])))]),
              ("catch", lambda s: [try_(block(p("t")), [("int", "e", block(s))])]), ("finally", lambda s: [if_(v, block(try_(block(p("t")), [("int", "e", block(p("c")))], block(s))))])]
    for th in ("", " throws"):
        for cn, mk in containers(th, False):
            for pn, w in places:
                for sn, st in (("break", break_()), ("continue", continue_()), ("throw", throw(lit("x"))), ("none", p("x"))):
                    if th and sn != "throw":
                        continue
                    if pn in ("case", "default") and sn == "none":
                        continue
                    yield "flow/%s/%s/%s/%s" % (cn, th.strip() or "plain", pn, sn), mk(copy.deepcopy(w(st)))
    for bn, b in (("ret", [ret(lit(True))]), ("none", [p("x")]), ("throw", [throw(lit("x"))]), ("empty", []), ("if-none", [if_(v, block(p("x")))]), ("both", [if_(v, block(ret(lit(True))), block(ret(lit(False))))])):
        for vis, mods, gn, bs in itertools.product(("public", "private", "protected", "public static"), ("const throws", "modify throws"), ("", "T"), ("", "P")):
            if gn and ("static" in vis or bs):
                continue
            k = cls("K", [], [method("f", [], "bool", b, "throws" if "static" in vis else mods, vis)], generic=["T"] if gn else None, base=bs or None)
            yield "result/%s/%s/%s/%s/%s" % (bn, vis, mods, gn, bs), prog([decl("K<int>", "k", new("K<int>"))] if gn else [decl("K", "k", new("K"))], classes=[k])
        for on in ("operator+", "operator=="):
            yield "result/%s/%s" % (bn, on), prog([decl("K", "k", new("K"))], classes=[cls("K", [], [method(on, [param("o", "int")], "bool", b, "const throws")])])


# ---------------------------------------------------------------- S02

def const_ops(path, kind):
    """what can be done with an int (kind i) or an object of class M (kind o) reached through path"""
    if kind == "i":
        yield "read", [decl("int", "z", get(*path))]
        yield "assign", [expr(asg(path, lit(5)))]
        for op in "+-*/%":
            yield "assign" + op, [expr(asg(path, lit(5), op))]
        yield "inc", [expr(inc(path))]
        yield "dec", [expr(inc(path, "-"))]
        yield "nested", [decl("int", "z", bin_("+", lit(1), asg(path, lit(5))))]
        yield "ref", [expr(fun("byRef", [get(*path)]))]
        yield "refconst", [expr(fun("byRefConst", [get(*path)]))]
        yield "value", [expr(fun("byValue", [get(*path)]))]
        yield "if-assign", [if_(bin_("==", asg(path, lit(5)), lit(5)), block(p("x")))]
    else:
        yield "read", [decl("int", "z", get(*path, "n"))]
        yield "constcall", [decl("int", "z", meth(path, "rd"))]
        yield "modcall", [expr(meth(path, "wr"))]
        yield "modcall-arg", [print_(meth(path, "wrGet"))]
        yield "member", [expr(asg(path + ["n"], lit(5)))]
        yield "member+", [expr(asg(path + ["n"], lit(5), "+"))]
        yield "member-inc", [expr(inc(path + ["n"]))]
        yield "replace", [expr(asg(path, new("M", [lit(9)])))]
        yield "delete", [delete(*path)]
        yield "deep", [expr(asg(path + ["in", "n"], lit(5)))]
        yield "deepcall", [expr(meth(path + ["in"], "wr"))]
        yield "deepread", [decl("int", "z", meth(path + ["in"], "rd"))]
        yield "ref", [expr(fun("objRef", [get(*path)]))]
        yield "refconst", [expr(fun("objRefConst", [get(*path)]))]


def m_class():
    return [cls("N", [("n", "int", 1, "public")], [
        method("wr", [], "void", [expr(asg("n", lit(7)))], "modify"), method("rd", [], "int", [ret(get("n"))], "const")]),
        cls("M", [("n", "int", 1, "public"), ("in", "N", None, "public")], [
            method("Constructor", [param("v", "int", lit(1))], "void", [expr(asg("n", get("v"))), expr(asg("in", new("N")))], ""),
            method("wr", [], "void", [expr(asg("n", lit(7)))], "modify"),
            method("wrGet", [], "int", [expr(asg("n", lit(7))), ret(get("n"))], "modify"),
            method("rd", [], "int", [ret(get("n"))], "const")])]


def m_funcs():
    return [method("byRef", [param("q", "int", None, "ref")], "void", [expr(asg("q", lit(1)))], "modify", "private"),
            method("byRefConst", [param("q", "int", None, "const ref")], "void", [p("q")], "modify", "private"),
            method("byValue", [param("q", "int")], "void", [expr(asg("q", lit(1)))], "modify", "private"),
            method("objRef", [param("q", "M", None, "ref")], "void", [expr(meth("q", "wr"))], "modify", "private"),
            method("objRefConst", [param("q", "M", None, "const ref")], "void", [print_(meth("q", "rd"))], "modify", "private")]


def constants():
    for kind, ty, val_ in (("i", "int", lit(2)), ("o", "M", new("M"))):
        for c in ("", " const"):
            tag = "const" if c else "plain"
            P_ = lambda body, funcs=(), classes=(), globals_=(): prog(body, m_funcs() + list(funcs), m_class() + seq_classes() + list(classes), globals_=globals_)
            for on, st in const_ops(["v"], kind):
                local = [decl(ty, "v" + c, val_)] + st
                yield "local/%s/%s/%s" % (tag, ty, on), P_(local)
                yield "nested/%s/%s/%s" % (tag, ty, on), P_([decl(ty, "v" + c, val_), if_(lit(True), block(block(*st)))])
                yield "param/%s/%s/%s" % (tag, ty, on), P_([decl(ty, "v", val_), expr(fun("f", [get("v")]))],
                                                          [method("f", [param("v", ty, None, c.strip())], "void", st, "modify", "private")])
                yield "mparam/%s/%s/%s" % (tag, ty, on), P_([decl(ty, "v", val_), decl("H", "h", new("H")), expr(meth("h", "f", [get("v")]))],
                                                           classes=[cls("H", [], [method("f", [param("v", ty, None, c.strip())], "void", st, "modify")])])
                yield "mconst/%s/%s/%s" % (tag, ty, on), P_([decl(ty, "v", val_), decl("H", "h", new("H")), expr(meth("h", "f", [get("v")]))],
                                                           classes=[cls("H", [], [method("f", [param("v", ty, None, c.strip())], "void", st, "const")])])
                yield "shadow/%s/%s/%s" % (tag, ty, on), P_([decl(ty, "v" + (" const" if not c else ""), val_), block(decl(ty, "v" + c, val_), *st)])
                yield "catch/%s/%s/%s" % (tag, ty, on), P_([try_(block(throw(val_)), [(ty, "v" + c, block(*st))])])
                if kind == "i":
                    yield "foreach/%s/%s/%s" % (tag, ty, on), P_([foreach("int", "v" + c, new("Seq", [lit(2)]), block(*(st + [break_()])))])
                    yield "for/%s/%s/%s" % (tag, ty, on), P_([for_(decl("int", "v" + c, lit(0)), bin_("<", get("v"), lit(1)), expr(asg("num", lit(1))), block(*(st + [break_()])))][:0]
                                                            + [decl("int", "num", lit(0)), for_(decl("int", "v" + c, lit(0)), bin_("<", get("v"), lit(1)), expr(asg("num", lit(1))), block(*(st + [break_()])))])
                    yield "global/%s/%s/%s" % (tag, ty, on), P_(st, globals_=[("v" + c, "int", 3)])
                    yield "globalf/%s/%s/%s" % (tag, ty, on), P_([expr(fun("f"))], [method("f", [], "void", st, "modify", "private")], globals_=[("v" + c, "int", 3)])


def const_methods():
    """members used in const, modify and unmarked methods, constructors and static methods"""
    P_ = lambda body, classes: prog(body, m_funcs(), m_class() + list(classes))
    for kind, ty in (("i", "int"), ("o", "M")):
        for how, path in (("own", ["v"]), ("this", ["this", "v"]), ("inherited", ["v"]), ("base", ["base", "v"]), ("other", ["o", "v"]), ("fresh", ["n2", "v"])):
            for mods in ("const", "", "modify", "ctor"):
                for on, st in const_ops(path, kind):
                    initv = expr(asg("v", new("M"))) if kind == "o" else expr(asg("v", lit(1)))
                    pre = [decl("H", "n2", new("H", [lit(1)]))] if how == "fresh" else []
                    ps = [param("o", "H")] if how == "other" else []
                    args = [get("o2")] if how == "other" else []
                    if mods == "ctor":
                        if how in ("other", "fresh"):
                            continue
                        mm = [method("Constructor", [param("k", "int")], "void", [initv] + st, "")]
                        call = []
                    else:
                        mm = [method("Constructor", [param("k", "int")], "void", [initv], ""),
                              method("f", ps, "void", pre + st, mods)]
                        call = [expr(meth("h", "f", args))]
                    if how in ("inherited", "base"):
                        cs = [cls("T", [("v", ty, None, "protected")], []), cls("H", [], mm, base="T")]
                    else:
                        cs = [cls("H", [("v", ty, None, "public")], mm)]
                    yield "method/%s/%s/%s/%s" % (mods or "unmarked", how, ty, on), P_([decl("H", "h", new("H", [lit(1)])), decl("H", "o2", new("H", [lit(2)]))] + call, cs)
    # calls from const methods to own methods
    for caller, callee, how in itertools.product(("const", "", "modify"), ("const", "", "modify"), ("self", "this", "base", "other", "arg")):
        g = method("g", [], "int", [ret(lit(1))], callee)
        c = {"self": self_("g"), "this": meth("this", "g"), "base": base("g"), "other": meth("o", "g"), "arg": None}[how]
        body = [print_(c)] if c else [expr(self_("k", [self_("g")]))]
        f = method("f", [param("o", "H")], "void", body, caller)
        k = method("k", [param("x", "int")], "void", [p("k")], "const")
        cs = [cls("T", [], [g]), cls("H", [], [f, k], base="T")] if how == "base" else [cls("H", [], [g, f, k])]
        yield "calls/%s/%s/%s" % (caller or "unmarked", callee or "unmarked", how), P_([decl("H", "h", new("H")), expr(meth("h", "f", [get("h")]))], cs)
        # through a const variable, parameter and member of a const object
    for callee, how in itertools.product(("const", "", "modify"), ("local", "param", "member", "derived", "overload")):
        h = cls("H", [], [method("g", [], "int", [ret(lit(1))], callee), method("g", [param("x", "string")], "int", [ret(lit(1))], "modify" if callee != "modify" else "const")])
        d = cls("D", [("h", "H", None, "public")], [method("Constructor", [], "void", [expr(asg("h", new("H")))], "")], base="H")
        body = {"local": [decl("H", "v const", new("H")), print_(meth("v", "g"))], "param": [decl("H", "v", new("H")), expr(fun("f", [get("v")]))],
                "member": [decl("D", "v const", new("D")), print_(meth(["v", "h"], "g"))], "derived": [decl("D", "v const", new("D")), print_(meth("v", "g"))],
                "overload": [decl("H", "v const", new("H")), print_(meth("v", "g", [lit("s")]))]}[how]
        f = method("f", [param("v", "H", None, "const")], "void", [print_(meth("v", "g"))], "modify", "private")
        yield "constobj/%s/%s" % (callee or "unmarked", how), prog(body, m_funcs() + [f], m_class() + [h, d])


def const_members():
    """a member declared const, used in every kind of method and from outside"""
    for kind, ty in (("i", "int"), ("o", "M")):
        for how, path in (("own", ["v"]), ("this", ["this", "v"])):
            for mods in ("const", "modify"):
                for on, st in const_ops(path, kind):
                    initv = expr(asg("v", new("M"))) if kind == "o" else expr(asg("v", lit(1)))
                    h = cls("H", [("v const", ty, None, "public")], [method("Constructor", [], "void", [initv], ""), method("f", [], "void", st, mods)])
                    yield "constmember/%s/%s/%s/%s" % (mods, how, ty, on), prog([decl("H", "h", new("H")), expr(meth("h", "f"))], m_funcs(), m_class() + [h])
        for on, st in const_ops(["h", "v"], kind):
            initv = expr(asg("v", new("M"))) if kind == "o" else expr(asg("v", lit(1)))
            h = cls("H", [("v const", ty, None, "public")], [method("Constructor", [], "void", [initv], "")])
            yield "constmember/outside/%s/%s" % (ty, on), prog([decl("H", "h", new("H"))] + st, m_funcs(), m_class() + [h])


# ---------------------------------------------------------------- S03

VIS = ("public", "protected", "private")


def vis_classes(v, extra):
    """A <- B <- C and a stranger S; A has a member, an object member, a method, a static member and a static method of
    visibility v; extra: methods for A, B, C, S"""
    a = [method("Constructor", [param("d", "int", lit(1))], "void", [if_(bin_(">", get("d"), lit(0)), block(expr(asg("nx", new("A", [bin_("-", get("d"), lit(1))])))))], ""),
         method("m", [], "int", [ret(get("f"))], "const", v), method("m", [param("s", "string")], "int", [ret(get("f"))], "const", v),
         method("sm", [], "int", [ret(lit(3))], "", v + " static"),
         method("me", [], "A", [ret(this)], "modify"), method("open", [], "int", [ret(lit(1))], "const")]
    return [cls("A", [("f", "int", 1, v), ("nx", "A", None, "public"), ("hid", "P", None, v), ("st", "int", 4, v + " static")], a + extra.get("A", [])),
            cls("B", [], [method("Constructor", [param("d", "int", lit(1))], "void", [expr(asg("nx", new("A", [lit(1)])))], "")] + extra.get("B", []), base="A"),
            cls("C", [], [method("Constructor", [param("d", "int", lit(1))], "void", [expr(asg("nx", new("A", [lit(1)])))], "")] + extra.get("C", []), base="B"),
            cls("S", [("a", "A", None, "public")], [method("Constructor", [], "void", [expr(asg("a", new("A", [lit(2)])))], "")] + extra.get("S", []))]


def vis_uses():
    """(name, statements) with a, b, c, s variables of the four classes"""
    paths = [("a", ["a"]), ("b", ["b"]), ("c", ["c"]), ("a.nx", ["a", "nx"]), ("s.a", ["s", "a"]), ("a.nx.nx", ["a", "nx", "nx"]),
             ("b.nx", ["b", "nx"]), ("this", ["this"]), ("base", ["base"]), ("own", []), ("this.nx", ["this", "nx"]), ("own.nx", ["nx"])]
    for n, q in paths:
        yield n + "/read", [decl("int", "z", get(*q, "f"))]
        yield n + "/write", [expr(asg(q + ["f"], lit(5)))]
        yield n + "/inc", [expr(inc(q + ["f"]))]
        call = meth(q, "m") if q and q != ["base"] else base("m") if q else self_("m")
        call2 = meth(q, "m", [lit("s")]) if q and q != ["base"] else base("m", [lit("s")]) if q else self_("m", [lit("s")])
        yield n + "/call", [decl("int", "z", call)]
        yield n + "/call-arg", [expr(fun("use", [call2]))]
        yield n + "/object", [if_(bin_("==", get(*q, "hid"), get(*q, "hid")), block(p("x")))]
        yield n + "/open", [decl("int", "z", meth(q, "open") if q and q != ["base"] else base("open") if q else self_("open"))]
    yield "result/call", [decl("int", "z", meth(meth("a", "me"), "m"))]
    yield "result2/call", [decl("int", "z", meth(meth(meth("a", "me"), "me"), "m"))]
    yield "new/call", [decl("int", "z", meth(new("A"), "m"))] [:0] + [decl("int", "z", meth(meth("b", "me"), "m"))]
    for c in "ABC":
        yield "class-%s/static" % c, [decl("int", "z", get(c, "st"))]
        yield "class-%s/staticwrite" % c, [expr(asg([c, "st"], lit(6)))]
        yield "class-%s/staticcall" % c, [decl("int", "z", stat(c, "sm"))]
    yield "cond/read", [if_(bin_("==", get("a", "f"), lit(1)), block(p("x")))]
    yield "and/read", [if_(and_(lit(False), bin_("==", get("a", "f"), lit(1))), block(p("x")))]
    yield "arg/read", [expr(fun("use", [get("a", "f")]))]
    yield "tern/read", [decl("int", "z", tern(lit(True), lit(1), get("a", "f")))]
    yield "ret/read", [if_(lit(False), block(expr(fun("use", [bin_("+", lit(1), get("a", "f"))]))))]


def visibility():
    mk = [decl("A", "a", new("A", [lit(2)])), decl("B", "b", new("B")), decl("C", "c", new("C")), decl("S", "s", new("S"))]
    use = [method("use", [param("x", "int")], "void", [p("use")], "modify", "private")]
    for v in VIS:
        for un_, st in vis_uses():
            yield "%s/Main/%s" % (v, un_), prog(mk + st, use, vis_classes(v, {}))
            yield "%s/function/%s" % (v, un_), prog([expr(fun("f"))], use + [method("f", [], "void", mk + st, "modify", "private")], vis_classes(v, {}))
            for c in "ABCS":
                x = vis_classes(v, {c: [method("go", [], "void", mk + st, "modify")]})
                yield "%s/%s/%s" % (v, c, un_), prog(mk + [expr(meth(c.lower(), "go"))], use, x)
                if c in "AB" and not un_.startswith(("this", "base", "own", "class")):
                    x = vis_classes(v, {c: [method("go", [], "void", mk + st, "", "public static")]})
                    yield "%s/static-%s/%s" % (v, c, un_), prog([expr(stat(c, "go"))], use, x)


def hierarchies():
    """every shape of a small hierarchy: which classes exist, what they declare, which are instantiated"""
    f = lambda body, mods="const": method("f", [], "int", body, mods)
    bodies = {"abstract": method("f", [], "int", ["abstract"], "const", "public abstract"), "concrete": f([ret(lit(1))]), "none": None}
    for rootmod, rootf, basef, inst in itertools.product(("", "abstract", "interface"), ("abstract", "concrete", "none"), ("abstract", "concrete", "none"), ("T", "U", "V")):
        if rootmod == "interface" and rootf == "concrete":
            continue
        rf = bodies[rootf]
        if rootmod == "interface" and rf:
            rf = method("f", [], "int", ["abstract"], "const")
        t = cls("T", [], [rf] if rf else [], mods=rootmod)
        um = "abstract" if basef == "abstract" or (basef == "none" and rootf == "abstract") else ""
        ub = {"base": "T"} if rootmod != "interface" else {"ifaces": ["T"]}
        u = cls("U", [], [bodies[basef]] if bodies[basef] else [], mods=um, **ub)
        v = cls("V", [], [f([ret(lit(2))])], base="U")
        if rootmod == "" and rootf == "abstract":
            continue
        yield "new/%s/%s/%s/%s" % (rootmod or "plain", rootf, basef, inst), prog([decl(inst, "o", new(inst)), p("made")], classes=[t, u, v])
    for n, cs in (("self", [cls("T", base="T")]), ("two", [cls("T", base="U"), cls("U", base="T")]), ("three", [cls("T", base="U"), cls("U", base="V"), cls("V", base="T")]),
                  ("unknown", [cls("T", base="Nowhere")]), ("unknown-interface", [cls("T", ifaces=["Nowhere"])]),
                  ("chain", [cls("T"), cls("U", base="T"), cls("V", base="U")]), ("fine", [cls("T")]),
                  ("dup-member", [cls("T", [("x", "int", 1, "public"), ("x", "int", 2, "public")])]),
                  ("dup-member-type", [cls("T", [("x", "int", 1, "public"), ("x", "string", "s", "private")])]),
                  ("dup-method", [cls("T", [], [f([ret(lit(1))]), f([ret(lit(2))])])]),
                  ("dup-constructor", [cls("T", [], [method("Constructor", [], "void", [p("1")], ""), method("Constructor", [], "void", [p("2")], "")])]),
                  ("dup-constructor-below", [cls("T", [], [method("Constructor", [param("x", "int", lit(1))], "void", [p("1")], "")]),
                                             cls("U", [], [method("Constructor", [param("x", "string")], "void", [p("1")], ""),
                                                           method("Constructor", [param("y", "string")], "void", [p("2")], "")], base="T")]),
                  ("two-constructors", [cls("T", [], [method("Constructor", [], "void", [p("1")], ""), method("Constructor", [param("x", "int")], "void", [p("2")], "")])]),
                  ("dup-destructor", [cls("T", [], [method("Destructor", [], "void", [p("1")], ""), method("Destructor", [], "void", [p("2")], "")])]),
                  ("overload", [cls("T", [], [f([ret(lit(1))]), method("f", [param("x", "int")], "int", [ret(lit(2))], "const")])]),
                  ("unknown-member-type", [cls("T", [("x", "Nowhere", None, "public")])]),
                  ("unknown-param-type", [cls("T", [], [method("g", [param("x", "Nowhere")], "void", [p("g")], "const")])]),
                  ("unknown-result-type", [cls("T", [], [method("g", [], "Nowhere", [ret(lit(1))], "const")])]),
                  ("dup-param", [cls("T", [], [method("g", [param("x", "int"), param("x", "int")], "void", [p("g")], "const")])]),
                  ("same-member-below", [cls("T", [("x", "int", 1, "public")]), cls("U", [("y", "int", 1, "public")], base="T")]),
                  ("dup-class", [cls("T"), cls("T")])):
        if n == "dup-class":
            continue
        yield "decl/" + n, prog([decl("T", "o", new("T"))], classes=cs)
        yield "decl-unused/" + n, prog([p("x")], classes=cs)
    yield "decl/dup-function", prog([p("x")], [method("g", [], "void", [p("g")], "modify", "private"), method("g", [], "void", [p("g")], "modify", "private")])
    yield "decl/overloaded-function", prog([p("x")], [method("g", [], "void", [p("g")], "modify", "private"), method("g", [param("x", "int")], "void", [p("g")], "modify", "private")])
    yield "decl/dup-local", prog([decl("int", "x", lit(1)), decl("int", "x", lit(2))])
    yield "decl/dup-local-type", prog([decl("int", "x", lit(1)), decl("string", "x", lit("s"))])
    yield "decl/inner-local", prog([decl("int", "x", lit(1)), block(decl("int", "x", lit(2)))])
    yield "decl/unknown-local-type", prog([decl("Nowhere", "x", None)])
    # an abstract method is never executed: called through every static type
    ab = cls("T", [], [bodies["abstract"], method("run", [], "int", [ret(self_("f"))], "const")], mods="abstract")
    for below in (("U",), ("V",), ("U", "V")):
        u = cls("U", [], [f([ret(lit(1))])] if "U" in below else [], base="T", mods="" if "U" in below else "abstract")
        v = cls("V", [], [f([ret(lit(2))])] if "V" in below else [], base="U")
        for inst in "UV":
            yield "impl/%s/%s" % ("".join(below), inst), prog([decl(inst, "o", new(inst)), p("made"), print_(meth("o", "f"))], classes=[ab, u, v])


# ---------------------------------------------------------------- S04

def bodies_depth(d):
    """statement lists of a method with result int"""
    leaf = [("ret", [ret(lit(1))]), ("throw", [throw(lit("x"))]), ("print", [p("b")]), ("none", [])]
    yield from leaf
    if d == 0:
        return
    sub = list(bodies_depth(d - 1))
    c = bin_("==", get("n"), lit(1))
    for (an, a), (bn, b) in itertools.product(sub, sub):
        yield "if(%s|%s)" % (an, bn), [if_(c, block(*a), block(*b))]
        yield "try(%s|%s)" % (an, bn), [try_(block(*a), [("", "", block(*b))])]
        yield "fin(%s|%s)" % (an, bn), [try_(block(*a), [("string", "e", block(*b))], block(p("f")))]
        yield "sw(%s|%s)" % (an, bn), [switch(get("n"), [(lit(1), block(*(a + ([] if an in ("ret", "throw") else [break_()]))))], block(*(b + ([] if bn in ("ret", "throw") else [break_()]))))]
    for an, a in sub:
        yield "blk(%s)" % an, [block(*a)]
        yield "if1(%s)" % an, [if_(c, block(*a))]
        yield "wh(%s)" % an, [while_(c, block(*(a + [break_()] if an == "print" else a)))]
        yield "pre(%s)" % an, [p("pre")] + a


def returns(depth):
    for n, b in bodies_depth(depth):
        for cont in ("function", "method", "static", "const"):
            if depth > 1 and cont != "function":
                continue
            m = method("f", [param("n", "int")], "int", copy.deepcopy(b), {"function": "modify throws", "method": "modify throws", "static": "throws", "const": "const throws"}[cont],
                       {"function": "private", "static": "public static"}.get(cont, "public"))
            yield "returns/%s/%s" % (cont, n), (prog([p("x")], [m]) if cont == "function" else prog([p("x")], classes=[cls("K", [], [m])]))
    for rt in ("bool", "string", "P", "Col", "float"):
        for n, b in (("none", [p("x")]), ("empty", []), ("ret", [decl(rt, "z", value(rt)), ret(get("z"))]), ("bare", [ret()]), ("if", [if_(lit(True), block(p("x")))])):
            yield "result/%s/%s" % (rt, n), prog([p("x")], [method("f", [], rt, b, "modify", "private")])
    for n, b in (("bare", [ret()]), ("value", [ret(lit(1))]), ("none", []), ("early", [if_(lit(True), block(ret())), p("x")])):
        yield "void/%s" % n, prog([expr(fun("f"))], [method("f", [], "void", b, "modify", "private")])
        yield "void-ctor/%s" % n, prog([decl("K", "k", new("K"))], classes=[cls("K", [], [method("Constructor", [], "void", b, "")])])


def jumps():
    j = {"break": break_, "continue": continue_}
    c = lit(False)
    wrap = {
        "plain": lambda s: s, "block": lambda s: [block(*s)], "if": lambda s: [if_(lit(True), block(*s))], "else": lambda s: [if_(lit(True), block(p("x")), block(*s))],
        "if-noblock": lambda s: [if_(lit(True), s[0])],
        "try": lambda s: [try_(block(*s), [("", "", block(p("c")))])], "catch": lambda s: [try_(block(p("t")), [("", "", block(*s))])],
        "finally": lambda s: [try_(block(p("t")), [("", "", block(p("c")))], block(*s))],
        "while": lambda s: [while_(c, block(*s))], "for": lambda s: [for_(decl("int", "i", lit(9)), bin_("<", get("i"), lit(3)), expr(inc("i")), block(*s))],
        "foreach": lambda s: [foreach("int", "i", new("Seq", [lit(0)]), block(*s))],
        "case": lambda s: [switch(lit(2), [(lit(1), block(*(s + [] if s[-1]["k"] in ("break", "continue") else s + [break_()])))])],
        "default": lambda s: [switch(lit(1), [(lit(1), block(break_()))], block(*(s if s[-1]["k"] in ("break", "continue") else s + [break_()])))],
    }
    after = {"after-while": [while_(c, block(p("x")))], "after-for": [for_(decl("int", "i", lit(9)), bin_("<", get("i"), lit(3)), expr(inc("i")), block(p("x")))],
             "after-foreach": [foreach("int", "i", new("Seq", [lit(0)]), block(p("x")))], "after-switch": [switch(lit(1), [(lit(1), block(break_()))])],
             "after-nested": [while_(c, block(while_(c, block(p("x")))))], "after-default": [switch(lit(2), [(lit(1), block(break_()))], block(p("x"), break_()))],
             "after-broken": [while_(c, block(break_()))], "after-try": [try_(block(while_(c, block(p("x")))), [("", "", block(p("c")))])]}
    for jn in j:
        for a, b in itertools.product(wrap, wrap):
            if a == "if-noblock" and b != "plain":
                continue
            # the jump itself stays in a branch that is not taken
            body = wrap[b](wrap[a]([j[jn]()]))
            body = [if_(lit(False), block(*body))]
            for cont, mods in (("function", ""), ("method", "")):
                m = method("f", [], "void", copy.deepcopy(body), "modify", "private" if cont == "function" else "public")
                yield "jump/%s/%s/%s-%s" % (cont, jn, a, b), (prog([expr(fun("f"))], [m], seq_classes()) if cont == "function" else
                                                            prog([decl("K", "k", new("K")), expr(meth("k", "f"))], classes=seq_classes() + [cls("K", [], [m])]))
        for a in after:
            for b in wrap:
                if b == "if-noblock":
                    continue
                body = [if_(lit(False), block(*wrap[b](after[a] + [j[jn]()])))]
                yield "jump-after/%s/%s/%s" % (jn, a, b), prog([expr(fun("f"))], [method("f", [], "void", copy.deepcopy(body), "modify", "private")], seq_classes())
    blocks = {"break": [break_()], "return": [ret()], "throw": [throw(lit("x"))], "none": [p("x")], "empty": [], "continue": [p("x"), continue_()], "if-break": [if_(lit(True), block(break_()))],
              "print-break": [p("x"), break_()], "nested-switch": [switch(lit(1), [(lit(1), block(break_()))])], "while-break": [while_(lit(True), block(break_()))]}
    for (an, a), (bn, b) in itertools.product(blocks.items(), blocks.items()):
        body = [switch(lit(5), [(lit(1), block(*a)), (lit(2), block(*b))])]
        yield "case/%s/%s" % (an, bn), prog([expr(fun("f"))], [method("f", [], "void", copy.deepcopy(body), "modify throws", "private")])
        body = [switch(lit(1), [(lit(1), block(break_())), (lit(2), block(*a))], block(*b))]
        yield "case-default/%s/%s" % (an, bn), prog([expr(fun("f"))], [method("f", [], "void", copy.deepcopy(body), "modify throws", "private")])


def exc_classes():
    return [cls("E0"), cls("E1", base="E0"), cls("F0")]


def throws():
    vals = {"string": lit("x"), "int": lit(1), "E0": new("E0"), "E1": new("E1"), "F0": new("F0")}
    handlers = [[]] + [[t] for t in list(vals) + [""]] + [[a, b] for a in list(vals) for b in list(vals) + [""] if a != b]
    decls = (("throws", "modify throws"), ("plain", "modify"))

    def P_(body, mods, cont="function"):
        body = [if_(bin_("==", get("n"), lit(1)), block(*body))]
        m = method("f", [param("n", "int")], "void", copy.deepcopy(body), mods, "private" if cont == "function" else "public")
        if cont == "function":
            return prog([expr(fun("f", [lit(0)]))], [m], exc_classes())
        if cont == "constructor":
            return prog([decl("K", "k", new("K", [lit(0)]))], classes=exc_classes() + [cls("K", [], [method("Constructor", [param("n", "int")], "void", copy.deepcopy(body), mods.replace("modify", "").strip())])])
        return prog([decl("K", "k", new("K")), expr(meth("k", "f", [lit(0)]))], classes=exc_classes() + [cls("K", [], [m])])

    for dn, mods in decls:
        for t, v in vals.items():
            for cont in ("function", "method", "constructor"):
                yield "throw/%s/%s/%s" % (dn, cont, t), P_([throw(v)], mods, cont)
            for hs in handlers:
                cs = [(h, "e%d" % i, block(p("h"))) for i, h in enumerate(hs)]
                yield "caught/%s/%s/%s" % (dn, t, "+".join(h or "all" for h in hs)), P_([try_(block(throw(v)), cs)], mods)
                yield "caught-fin/%s/%s/%s" % (dn, t, "+".join(h or "all" for h in hs)), P_([try_(block(throw(v)), cs, block(p("f")))], mods)
                if len(hs) < 2:
                    # the throw is nested in other statements
                    for wn, w in (("if", lambda s: if_(bin_("==", get("n"), lit(1)), block(s))), ("else", lambda s: if_(bin_("==", get("n"), lit(1)), block(p("x")), block(s))),
                                  ("while", lambda s: while_(lit(True), block(s))), ("block", lambda s: block(block(s))), ("case", lambda s: switch(get("n"), [(lit(1), block(s))])),
                                  ("default", lambda s: switch(get("n"), [(lit(1), block(break_()))], block(s)))):
                        yield "caught-in/%s/%s/%s/%s" % (dn, t, wn, "".join(h or "all" for h in hs) or "none"), P_([try_(block(w(throw(v))), cs)], mods)
        for t, u in itertools.product(vals, vals):
            v, w = vals[t], vals[u]
            yield "handler/%s/%s/%s" % (dn, t, u), P_([try_(block(throw(v)), [(t, "e", block(throw(w)))])], mods)
            yield "finally/%s/%s/%s" % (dn, t, u), P_([try_(block(throw(v)), [("", "", block(p("h")))], block(throw(w)))], mods)
            yield "finally-own/%s/%s/%s" % (dn, t, u), P_([try_(block(p("t")), [(u, "e", block(p("h")))], block(throw(v)))], mods)
            yield "second/%s/%s/%s" % (dn, t, u), P_([try_(block(throw(v)), [(t, "e", block(p("h")))]), throw(w)], mods)
            yield "inner/%s/%s/%s" % (dn, t, u), P_([try_(block(try_(block(throw(v)), [(u, "e", block(p("h")))])), [(t, "e", block(p("h")))])], mods)
            yield "inner-handler/%s/%s/%s" % (dn, t, u), P_([try_(block(try_(block(throw(v)), [(t, "e", block(throw(w)))])), [(u, "e", block(p("h")))])], mods)
            yield "two/%s/%s/%s" % (dn, t, u), P_([try_(block(if_(bin_("==", get("n"), lit(2)), block(throw(v))), throw(w)), [(t, "e", block(p("h")))])], mods)
            yield "after-try/%s/%s/%s" % (dn, t, u), P_([try_(block(p("x")), [(u, "e", block(p("h")))]), throw(v)], mods)
            yield "before-try/%s/%s/%s" % (dn, t, u), P_([if_(bin_("==", get("n"), lit(3)), block(throw(v))), try_(block(p("x")), [(t, "e", block(p("h")))])], mods)


def throw_sequences():
    """two statements in a row, each a throw or a try statement with all choices of blocks; and one inside the other"""
    vals = {"int": lit(1), "string": lit("x")}

    def atom(a):
        if a == "p":
            return p("x")
        if a in vals:
            return if_(bin_("==", get("n"), lit(3)), block(throw(vals[a])))
        b, h, hb, f = a
        hs = [] if h == "none" else [("" if h == "all" else h, "e", block(atom(hb)))]
        return try_(block(atom(b)), hs, None if f == "-" else block(atom(f)))

    tries = [(b, h, hb, f) for b in ("p", "int", "string") for h in ("none", "int", "string", "all") for hb in ("p", "int") for f in ("-", "p", "string")
             if not (h == "none" and hb != "p") and not (h == "none" and f == "-")]
    atoms = list(vals) + tries

    def name(a):
        return a if isinstance(a, str) else "(" + ".".join(name(x) for x in a) + ")"

    for a, b in itertools.product(atoms, atoms):
        if isinstance(a, str) and isinstance(b, str):
            continue
        m = method("f", [param("n", "int")], "void", [atom(a), atom(b)], "modify", "private")
        yield "seq/%s/%s" % (name(a), name(b)), prog([expr(fun("f", [lit(0)]))], [m])
    for a in tries:
        for h, hb, f in itertools.product(("none", "int", "string", "all"), ("p", "int"), ("-", "p", "string")):
            if h == "none" and (hb != "p" or f == "-"):
                continue
            for q in ((a, h, hb, f), ("p", h, a, f), ("p", h, hb, a)):
                if h == "none" and q[1:] == ("none", a, f):
                    continue
                m = method("f", [param("n", "int")], "void", [atom(q)], "modify", "private")
                yield "nest/%s" % name(q), prog([expr(fun("f", [lit(0)]))], [m])


def reference_lists():
    """parameter lists with values and references, called with constants and variables"""
    for n in (1, 2, 3):
        for kinds in itertools.product(("val", "ref", "cref"), repeat=n):
            for consts in itertools.product((0, 1), repeat=n):
                if not any(consts):
                    continue
                for ty, v in (("int", lit(2)), ("M", new("M"))):
                    if ty == "M" and n == 3:
                        continue
                    ps = [param("x%d" % i, ty, None, {"val": "", "ref": "ref", "cref": "const ref"}[k]) for i, k in enumerate(kinds)]
                    ds = [decl(ty, "a%d%s" % (i, " const" if c else ""), v) for i, c in enumerate(consts)]
                    args = [get("a%d" % i) for i in range(n)]
                    nm = "%s/%s/%s" % (ty, "+".join(kinds), "".join(map(str, consts)))
                    yield "refs/function/" + nm, prog(ds + [expr(fun("f", args))], [method("f", ps, "void", [p("f")], "modify", "private")], m_class())
                    yield "refs/method/" + nm, prog(ds + [decl("H", "h", new("H")), expr(meth("h", "f", args))], [], m_class() + [cls("H", [], [method("f", ps, "void", [p("f")], "modify")])])
                    yield "refs/constructor/" + nm, prog(ds + [decl("H", "h", new("H", args))], [], m_class() + [cls("H", [], [method("Constructor", ps, "void", [p("f")], "")])])
