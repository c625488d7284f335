"""Families of programs about enumerations (L08)."""
import itertools

from lang import (asg, bin_, block, break_, cast, cls, decl, enumv, expr, for_, foreach, fun, get, if_, inc, is_, lit, meth, method, new, or_, and_,
                  param, print_, program, ret, self_, stat, switch, tern, this, throw, try_, typeid, un, while_)

STR = lambda e: cast("string", e)
INT = lambda e: cast("int", e)
TO_S = lambda e: cast("string", e, "")
TO_I = lambda e: cast("int", e, "")


def p(e):
    return print_(lit(e) if isinstance(e, str) else e)


def show(*e):
    """prints the values of the expressions (numbers, texts, truths) in one line each"""
    return [p(STR(x)) for x in e]


def prog(enum, body, classes=(), funcs=(), globals_=(), more=()):
    """a program with enumeration `enum` = (name, entries); its name tells where it is declared: E, N.E or O.E"""
    place = enum[0].split(".")[0] if "." in enum[0] else ""
    cs = list(classes)
    if place == "O":
        c = cls("O", [], [])
        c["enums"] = [(enum[0].split(".")[1], enum[1])]
        cs = [c] + cs
    r = program(cs, list(funcs), list(body) + [ret(lit(0))], globals_)
    r["enums"] = [enum] + list(more)
    if globals_:
        r["late_globals"] = True
    return r


def number(entries):
    n, last = {}, -1
    for name, v in entries:
        last = v if v is not None else last + 1
        n[name] = last
    return n


def shapes(n):
    """all ways to number n values"""
    for first in (None, 0, 1, 5):
        for rest in itertools.product((None, 1, 3), repeat=n - 1):
            last = 0 if first is None else first
            es = [("A0", first)]
            for i, r in enumerate(rest):
                last += 1 if r is None else r
                es.append(("A%d" % (i + 1), None if r is None else last))
            yield es


def numbering(places, n):
    for place in places:
        ty = place + "Col"
        for k in range(1, n + 1):
            for es in shapes(k):
                names = [e[0] for e in es]
                vals = [enumv(ty, x) for x in names]
                body = [decl(ty, "c")] + show(get("c"))
                for v in vals:
                    body += show(v, INT(v), TO_I(v)) if False else show(v, INT(v))
                    body += [expr(asg("c", v))] + show(get("c"), INT(get("c"))) + [p(typeid(get("c")))]
                for a, b in itertools.product(names, names):
                    body += [expr(asg("c", enumv(ty, a)))] + show(*[bin_(op, get("c"), enumv(ty, b)) for op in ("==", "!=", "<", "<=", ">", ">=")])
                for a in names:
                    sw = switch(get("c"), [(enumv(ty, x), block(p(lit("case " + x)), break_())) for x in names])
                    sd = switch(get("c"), [(enumv(ty, x), block(p(lit("case " + x)), break_())) for x in names[1:]], block(p(lit("default")), break_()))
                    body += [expr(asg("c", enumv(ty, a))), sw, sd]
                yield "numbers/%s/%s" % (ty, "-".join("%s" % ("" if e[1] is None else e[1]) for e in es)), prog((ty, es), body)


ENUMS = [[("RED", None), ("BLUE", 4), ("GREEN", None)], [("RED", 1), ("BLUE", None), ("GREEN", 7)], [("RED", None), ("BLUE", None), ("GREEN", None)]]


def uses(places):
    other = ("Dir", [("UP", 1), ("DOWN", None), ("LEFT", 9)])
    for place, (ei, es) in itertools.product(places, enumerate(ENUMS)):
        ty = place + "Col"
        nums = number(es)
        names = [e[0] for e in es]
        R, B, G = [enumv(ty, x) for x in names]
        P_ = lambda body, **kw: prog((ty, es), body, **kw)
        t = "%s/%d/" % (ty, ei)
        C = lambda n="c", e=None: decl(ty, n, e)
        # variables
        yield "copy/" + t, P_([C("a", B), C("b", get("a")), expr(asg("a", G))] + show(get("a"), get("b")))
        yield "default/" + t, P_([C("a")] + show(get("a"), bin_("==", get("a"), lit(0))))
        yield "scopes/" + t, P_([C("a", B), block(C("a", G), *show(get("a"))), *show(get("a"))])
        yield "loop/" + t, P_([C("a", R), for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(3)), expr(inc("i")),
                                                block(C("b"), if_(bin_("==", get("i"), lit(1)), block(expr(asg("b", G)))), *show(get("b")), expr(asg("a", get("b"))))), *show(get("a"))])
        for i, (x, v) in enumerate(zip(names, (R, B, G))):
            u = t + x
            # conversions
            yield "convert/" + u, P_([C("a", v), decl("int", "i", TO_I(get("a"))), decl("string", "s", TO_S(get("a"))), decl("int", "j", TO_I(v)), decl("string", "z", TO_S(v))]
                                     + show(get("i"), get("s"), get("j"), get("z"), bin_("+", get("i"), get("j"))))
            yield "assign-convert/" + u, P_([C("a", v), decl("int", "i", lit(77)), decl("string", "s", lit("x")), expr(asg("i", TO_I(get("a")))), expr(asg("s", TO_S(get("a"))))]
                                            + show(get("i"), get("s")))
            # comparison with numbers
            for n in (0, nums[x], nums[x] + 1, 99):
                yield "compare/%s/%d" % (u, n), P_([C("a", v), decl("int", "i", lit(n))] + show(*[bin_(op, get("a"), e) for op in ("==", "!=", "<", "<=", ">", ">=") for e in (lit(n), get("i"))]
                                                   + [bin_(op, get("i"), get("a")) for op in ("==", "!=", "<", "<=", ">", ">=")]))
            # truth
            yield "truth/" + u, P_([C("a", v), if_(get("a"), block(p("yes")), block(p("no"))), p(STR(un("!", get("a")))), p(tern(get("a"), lit("yes"), lit("no"))),
                                    p(STR(and_(get("a"), lit(True)))), p(STR(or_(get("a"), lit(False))))])
            # ternary
            yield "ternary/" + u, P_([C("a", v), decl("bool", "q", bin_("==", get("a"), v)), C("b", tern(get("q"), v, R)), C("d", tern(get("q"), R, get("a")))] + show(get("b"), get("d")))
            # parameters and results
            f = method("f", [param("x", ty)], ty, [expr(asg("x", R)), ret(get("x"))], "const", "private")
            yield "value-param/" + u, P_([C("a", v), C("b", fun("f", [get("a")], [ty]))] + show(get("a"), get("b")), funcs=[f])
            f = method("f", [param("x", ty)], ty, [ret(get("x"))], "const", "private")
            yield "result/" + u, P_([C("a", fun("f", [v], [ty])), p(STR(fun("f", [get("a")], [ty])))], funcs=[f])
            fs = [method("f", [param("x", ty)], "string", [ret(lit("enum"))], "const", "private"), method("f", [param("x", "int")], "string", [ret(lit("int"))], "const", "private"),
                  method("f", [param("x", "Dir")], "string", [ret(lit("dir"))], "const", "private"), method("f", [param("x", "string")], "string", [ret(lit("string"))], "const", "private")]
            yield "overload/" + u, P_([C("a", v), decl("Dir", "d", enumv("Dir", "DOWN")), p(fun("f", [get("a")], [ty])), p(fun("f", [get("d")], ["Dir"])), p(fun("f", [lit(1)], ["int"])),
                                       p(fun("f", [lit("s")], ["string"])), p(fun("f", [v], [ty]))], funcs=fs, more=[other])
            # members
            k = cls("K", [("m", ty, None, "public"), ("n", "int", 3, "public")], [
                method("Constructor", [param("x", ty)], "void", [expr(asg("m", get("x")))], ""),
                method("set", [param("x", ty)], "void", [expr(asg(["this", "m"], get("x")))], "modify"),
                method("get", [], ty, [ret(get("m"))], "const"),
                method("is", [param("x", ty)], "bool", [ret(bin_("==", get("m"), get("x")))], "const")])
            yield "member/" + u, P_([decl("K", "k", new("K", [v], [ty])), p(STR(get("k", "m"))), expr(asg(["k", "m"], R)), p(STR(meth("k", "get"))), expr(meth("k", "set", [v], [ty])),
                                     p(STR(meth("k", "get"))), p(STR(meth("k", "is", [v], [ty]))), p(STR(meth("k", "is", [R], [ty]))), decl("K", "l", new("K", [R], [ty])), expr(asg(["l", "m"], get("k", "m"))),
                                     expr(meth("k", "set", [R], [ty])), p(STR(get("l", "m")))], classes=[k])
            if place != "O.":
                yield "global/" + u, P_([p(STR(get("g"))), expr(asg("g", v)), expr(fun("f")), p(STR(get("g")))], globals_=[("g", ty, None)],
                                        funcs=[method("f", [], "void", [p(STR(get("g"))), expr(asg("g", R))], "modify", "private")])
            # switch in a loop over all numbers
            for y, z in itertools.permutations(names, 2):
                sw = switch(get("a"), [(enumv(ty, y), block(p(lit(y)), break_())), (enumv(ty, z), block(p(lit(z)), break_()))], block(p(lit("other")), break_()))
                yield "switch/%s/%s-%s" % (u, y, z), P_([C("a", v), sw, p("end")])
            yield "switch-int/" + u, P_([C("a", v), switch(get("a"), [(lit(nums[n]), block(p(lit(n)), break_())) for n in names], block(p("other"), break_()))])
            yield "int-switch/" + u, P_([decl("int", "a", lit(nums[x])), switch(get("a"), [(enumv(ty, n), block(p(lit(n)), break_())) for n in names], block(p("other"), break_()))])
            # exceptions
            cs = [("Dir", "e", block(p("dir"))), (ty, "e", block(p("enum"), p(STR(get("e"))))), ("int", "e", block(p("int"))), ("", "", block(p("all")))]
            yield "throw/" + u, P_([try_(block(C("a", v), throw(get("a"))), cs), try_(block(throw(v)), cs), try_(block(throw(lit(1))), cs), try_(block(throw(enumv("Dir", "DOWN"))), cs)], more=[other])
            yield "typeid/" + u, P_([C("a", v), decl("Dir", "d", enumv("Dir", "LEFT")), p(typeid(get("a"))), p(typeid(get("d"))), p(STR(is_(get("a"), ty))), p(STR(is_(get("d"), ty)))], more=[other])
        # conditions and loops
        yield "while/" + t, P_([C("a", R), decl("int", "n", lit(0)), while_(bin_("!=", get("a"), G), block(p(STR(get("a"))), if_(bin_("==", get("a"), R), block(expr(asg("a", B))), block(expr(asg("a", G)))))),
                                p(STR(get("a")))])
        # generic containers of enumeration values
        box = cls("Box", [("v", "T", None, "public")], [method("Constructor", [param("x", "T")], "void", [expr(asg("v", get("x")))], ""), method("get", [], "T", [ret(get("v"))], "const"),
                                                         method("same", [param("x", "T")], "bool", [ret(bin_("==", get("v"), get("x")))], "const")], generic=["T"])
        if not place:
            yield "generic/" + t, P_([C("r", R), C("x", B), decl("Box<%s>" % ty, "b", new("Box<%s>" % ty, [get("x")], [ty])), p(STR(meth("b", "get"))), p(STR(meth("b", "same", [get("x")], [ty]))),
                                      p(STR(meth("b", "same", [get("r")], [ty]))), expr(asg(["b", "v"], G)), p(STR(get("b", "v"))), p(STR(get("x")))], classes=[box])
        # two enumerations with the same value names
        yield "two/" + t, P_([C("a", B), decl("Alt", "b", enumv("Alt", "BLUE")), p(STR(get("a"))), p(STR(get("b"))), p(STR(bin_("==", get("a"), B))), p(STR(bin_("==", get("b"), enumv("Alt", "RED")))),
                              p(STR(enumv("Alt", "RED"))), p(STR(R))], more=[("Alt", [("BLUE", 2), ("RED", 8)])])


def declarations(n):
    """enumerations with numbers in any order, values repeated, and none at all"""
    for k in range(0, n + 1):
        for nums in itertools.product((None, 0, 1, 2, 5), repeat=k):
            es = [("A%d" % i, v) for i, v in enumerate(nums)]
            r = program([], [], [p("start"), p("end"), ret(lit(0))])
            r["enums"] = [("Col", es)]
            yield "declare/" + "-".join("" if v is None else str(v) for v in nums), r
    for names in itertools.product(("A", "B", "C"), repeat=3):
        r = program([], [], [p("start"), p("end"), ret(lit(0))])
        r["enums"] = [("Col", [(x, None) for x in names])]
        yield "names/" + "".join(names), r


def misuse():
    """every kind of use of an enumeration value where a value of another type is expected, and the other way round"""
    vals = {"Col": get("Col", "BLUE"), "Dir": get("Dir", "UP"), "int": lit(1), "string": lit("s"), "bool": lit(True), "K": new("K")}
    k = lambda extra=(): cls("K", [("m", "Col", None, "public"), ("d", "Dir", None, "public")], list(extra))

    def P_(body, funcs=(), ms=()):
        r = program([k(ms)], list(funcs), [p("start")] + [decl("Col", "c", vals["Col"]), decl("Dir", "d", vals["Dir"]), decl("int", "i", lit(1)), decl("string", "s", lit("s")), decl("bool", "b", lit(True)),
                                                          decl("K", "k", new("K"))] + list(body) + [p("end"), ret(lit(0))])
        r["enums"] = [("Col", [("RED", None), ("BLUE", 4)]), ("Dir", [("UP", None), ("DOWN", None)])]
        return r

    vars_ = {"Col": get("c"), "Dir": get("d"), "int": get("i"), "string": get("s"), "bool": get("b"), "K": get("k")}
    for a, b in itertools.product(vals, vals):
        for form, src in (("value", vals), ("variable", vars_)):
            if form == "value" and b == "K":
                continue
            t = "%s/%s/%s" % (form, a, b)
            if "Col" not in (a, b):
                continue
            yield "init/" + t, P_([decl(a, "x", src[b])])
            yield "assign/" + t, P_([expr(asg(vars_[a]["p"], src[b]))])
            yield "argument/" + t, P_([expr(fun("f", [src[b]]))], [method("f", [param("x", a)], "void", [p("f")], "const", "private")])
            yield "return/" + t, P_([], [method("f", [], a, [decl("Col", "c", vals["Col"]), decl("Dir", "d"), decl("int", "i", lit(1)), decl("string", "s", lit("s")), decl("bool", "b", lit(True)),
                                                        decl("K", "k", new("K")), ret(src[b])], "const", "private")])
            if a in ("Col", "Dir"):
                yield "member/" + t, P_([expr(asg(["k", {"Col": "m", "Dir": "d"}[a]], src[b]))])
            if a != "K" and b != "K":
                yield "case/" + t, P_([switch(vars_[a], [(src[b], block(break_()))])])
                for op in ("==", "!=", "<", ">=", "+", "-", "*", "&", "%"):
                    yield "operator/%s/%s" % (op, t), P_([expr(fun("f"))], [method("f", [], "void", [decl("Col", "c", vals["Col"]), decl("Dir", "d"), decl("int", "i", lit(1)), decl("string", "s", lit("s")),
                                                                                                decl("bool", "b", lit(True)), if_(bin_("==", bin_(op, vars_[a], src[b]), bin_(op, vars_[a], src[b])), block(p("x")))], "const", "private")])
    for n, e in (("write", expr(asg(["Col", "BLUE"], get("c")))), ("increment", expr(inc(["Col", "BLUE"]))), ("increment-variable", expr(inc(["c"]))), ("unknown", decl("Col", "x", get("Col", "PINK"))),
                 ("foreign", decl("Col", "x", get("Col", "UP"))), ("negate", decl("int", "x", un("-", get("c")))), ("not", decl("bool", "x", un("!", get("c"))))):
        yield "use/" + n, P_([e])
