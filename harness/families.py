"""Exhaustive families of small programs for SlangMachine (every combination within the bounds named at each family)."""
import itertools

from gen import cat, class_r, exceptions
from lang import *


def p(*xs):
    return print_(cat(lit(xs[0]), *xs[1:]) if len(xs) > 1 else lit(xs[0]))


def seq_classes():
    """a collection for foreach: the numbers 0 .. n-1"""
    return [
        cls("Iter", [("mCur", "int"), ("mEnd", "int")], [
            method("Constructor", [("n", "int")], "void", [expr(asg("mCur", lit(0))), expr(asg("mEnd", get("n")))], mods=""),
            method("hasNext", [], "bool", [ret(bin_("<", get("mCur"), get("mEnd")))], mods="const"),
            method("next", [], "int", [expr(inc("mCur")), ret(bin_("-", get("mCur"), lit(1)))], mods="modify"),
        ]),
        cls("Seq", [("mN", "int")], [
            method("Constructor", [("n", "int")], "void", [expr(asg("mN", get("n")))], mods=""),
            method("getIterator", [], "Iter", [ret(new("Iter", [get("mN")], ["int"]))], mods="const"),
        ]),
    ]


# ------------------------------------------------------------------ L02: nests of statements with a jump somewhere

LOOPS = ("while", "for", "foreach", "switch", "switchd")
NESTS = LOOPS + ("if", "else", "block")
RARE = ("fori", "fors", "forc", "ever", "elif")


def nest(kind, v, body, loops=2):
    """a statement of this kind around body; v: name of its counter, readable in body"""
    if kind == "while":
        return [decl("int", v, lit(-1)),
                while_(bin_("<", get(v), lit(loops - 1)), block(expr(inc(v)), *body))]
    if kind == "for":
        return [for_(decl("int", v, lit(0)), bin_("<", get(v), lit(loops)), expr(inc(v)), block(*body))]
    # parts of the head left out: first, step, condition, everything
    if kind == "fori":
        return [decl("int", v, lit(0)), for_(None, bin_("<", get(v), lit(loops)), expr(inc(v)), block(*body))]
    if kind == "fors":
        return [for_(decl("int", v, lit(-1)), bin_("<", get(v), lit(loops - 1)), None, block(expr(inc(v)), *body))]
    if kind == "forc":
        stop = if_(bin_("==", get(v), lit(loops)), block(break_()))
        return [for_(decl("int", v, lit(0)), None, expr(inc(v)), block(stop, *body))]
    if kind == "ever":
        stop = if_(bin_("==", get(v), lit(loops - 1)), block(break_()))
        return [decl("int", v, lit(-1)), for_(None, None, None, block(stop, expr(inc(v)), *body))]
    if kind == "elif":
        return [decl("int", v, lit(0)), if_(bin_("==", get(v), lit(5)), block(p("wrong branch")),
                                            if_(bin_("==", get(v), lit(0)), block(*body), block(p("wrong branch"))))]
    if kind == "foreach":
        return [foreach("int", v, new("Seq", [lit(loops)], ["int"]), block(*body))]
    if kind in ("switch", "switchd"):
        # the tested variable moves on before the body, so that continue gets to another case
        arm = [expr(inc(v))] + body + [p("end of arm"), break_()]
        cs = [(lit(-1), block(*arm))] if kind == "switch" else [(lit(7), block(p("wrong arm"), break_()))]
        other = block(p("other ", get(v)), break_())
        if kind == "switchd":
            return [decl("int", v, lit(-1)),
                    switch(get(v), cs + [(lit(0), other)], block(*arm))]
        return [decl("int", v, lit(-1)), switch(get(v), cs, other)]
    if kind == "if":
        return [decl("int", v, lit(0)), if_(bin_("==", get(v), lit(0)), block(*body), block(p("wrong branch")))]
    if kind == "else":
        return [decl("int", v, lit(0)), if_(bin_("!=", get(v), lit(0)), block(p("wrong branch")), block(*body))]
    return [decl("int", v, lit(0)), block(*body)]


def jump_stmt(j, val_):
    return {"break": break_, "continue": continue_, "return": lambda: ret(lit(val_))}[j]()


def control_nests(depth=2, rare=False):
    """all nests of `depth` statements, one jump (or none), at every level, in the first or second round; rare: the nests
    with a loop that leaves out parts of its head, a chain of conditions"""
    LOOPS = tuple(k for k in globals()["LOOPS"] + RARE if k != "elif")
    for kinds in itertools.product(NESTS + RARE if rare else NESTS, repeat=depth):
        if rare and not any(k in RARE for k in kinds):
            continue
        names = ["v%d" % i for i in range(depth)]
        places = [(None, None, None)]
        for lvl in range(depth):
            for j in ("break", "continue", "return"):
                if j != "return" and not any(k in LOOPS for k in kinds[:lvl + 1]):
                    continue
                # continue in the default arm of a switch would repeat it forever
                enc = [k for k in kinds[:lvl + 1] if k in LOOPS]
                if j == "continue" and enc[-1] == "switchd":
                    pass
                for when in (0, 1):
                    places.append((lvl, j, when))
        for lvl, j, when in places:
            body = []
            for i in reversed(range(depth)):
                inner = [p("in%d " % i, *[get(n) for n in names[:i + 1]])]
                if lvl == i:
                    inner.append(if_(bin_("==", get(names[i]), lit(when)), block(p("jump"), jump_stmt(j, 40 + i))))
                    inner.append(p("not taken %d" % i))
                inner += body
                if i + 1 < depth:
                    inner.append(p("after%d" % (i + 1)))
                body = nest(kinds[i], names[i], inner)
            f = method("t", [], "int", body + [p("last"), ret(lit(3))], mods="modify throws", vis="private")
            nm = "nest-%s%s" % ("-".join(kinds), "" if lvl is None else "/%s@%d.%d" % (j, lvl, when))
            yield nm, program(seq_classes(), [f], [p("t = ", fun("t")), ret(lit(1))])


def bare_nests(depth=3):
    """the same without braces: every statement is the only one of the statement around it, so that an else belongs to
    the nearest if, and a jump ends the nearest loop"""
    def around(kind, v, s):
        if kind == "while":
            return while_(bin_("<", inc(v), lit(2)), s)
        if kind == "for":
            return for_(decl("int", "l" + v, lit(0)), bin_("<", get("l" + v), lit(2)), expr(inc("l" + v)), s)
        if kind == "foreach":
            return foreach("int", "l" + v, new("Seq", [lit(2)], ["int"]), s)
        c = bin_("==", inc(v), lit(0))
        if kind == "if":
            return if_(c, s, None)
        if kind == "ifp":
            return if_(c, s, p("else of " + v))
        return if_(c, p("if of " + v), s)
    kinds = ("while", "for", "foreach", "if", "ifp", "else")
    for ks in itertools.product(kinds, repeat=depth):
        for leaf in ("print", "inc", "break", "continue", "return"):
            if leaf in ("break", "continue") and not any(k in ("while", "for", "foreach") for k in ks):
                continue
            # an else of an if without else around an inner if would go to the inner one
            if any(a in ("ifp",) and b == "if" for a, b in zip(ks, ks[1:])):
                continue
            s = {"print": lambda: p("leaf"), "inc": lambda: expr(asg("n", lit(1), "+"))}.get(leaf, lambda: jump_stmt(leaf, 9))()
            for i in reversed(range(depth)):
                s = around(ks[i], "v%d" % i, s)
            vs = [decl("int", "v%d" % i, lit(0)) for i in range(depth)] + [decl("int", "n", lit(0))]
            f = method("t", [], "int", vs + [s, p("n ", get("n"), *[get("v%d" % i) for i in range(depth)]), ret(lit(3))],
                       mods="modify throws", vis="private")
            yield "bare-%s/%s" % ("-".join(ks), leaf), program(seq_classes(), [f], [p("t = ", fun("t")), ret(lit(1))])


# ------------------------------------------------------------------ L03: exceptions

THROWN = {
    "string": lambda: lit("text"),
    "int": lambda: lit(17),
    "bool": lambda: lit(True),
    "E0": lambda: new("E0", [lit("e0")], ["string"]),
    "E1": lambda: new("E1", [lit("e1")], ["string"]),
    "E2": lambda: new("E2", [lit("e2")], ["string"]),
    "F0": lambda: new("F0", [lit("f0")], ["string"]),
}


def catch(ty, tag, body=()):
    if ty == "":
        return ("", "", block(p("caught %s any" % tag), *body))
    show = get("e" + tag) if ty in ("string", "int", "bool") else meth("e" + tag, "what")
    return (ty, "e" + tag, block(p("caught %s %s " % (tag, ty), show), *body))


def exc_program(fbody, extra=(), main=None):
    """t() runs inside an outer handler of everything; t is called twice"""
    f = method("t", [], "int", fbody + [p("end of t"), ret(lit(1))], mods="modify throws", vis="private")
    if main is None:
        def call(i):
            return try_(block(p("t%d = " % i, fun("t"))), [catch(t, "o%d" % i) for t in ("string", "int", "bool", "E0", "F0")])
        main = [call(1), p("between"), call(2), p("last"), ret(lit(5))]
    return program(exceptions() + seq_classes(), list(extra) + [f], main)


def handler_lists():
    tys = list(THROWN)
    yield ()
    for a in tys + [""]:
        yield (a,)
    for a, b in itertools.permutations(tys, 2):
        yield (a, b)
    for a in tys:
        yield (a, "")


def exc_selection():
    """which handler gets which exception: every thrown type against every list of up to two handlers"""
    for t, mk in THROWN.items():
        for hs in handler_lists():
            for fin in (False, True):
                if fin and len(hs) == 2 and "" not in hs:
                    continue
                body = [p("before"),
                        try_(block(p("try"), throw(mk()) if t else p("x")), [catch(h, "h%d" % i) for i, h in enumerate(hs)],
                             block(p("finally")) if fin else None), p("after")]
                yield "select-%s/%s%s" % (t, "+".join(h or "any" for h in hs) or "none", "/fin" if fin else ""), exc_program(body)


FLOWS = {
    "normal": lambda t: [],
    "throw": lambda t: [throw(lit("thrown " + t))],
    "throwE": lambda t: [throw(new("E1", [lit("e " + t)], ["string"]))],
    "return": lambda t: [ret(lit(len(t)))],
    "break": lambda t: [break_()],
    "continue": lambda t: [continue_()],
    "exit": lambda t: [exit_(lit(9 + len(t)))],
    "assert": lambda t: [assert_(bin_("==", lit(len(t)), lit(0)))],
}


def exc_flows():
    """every way to leave the try block x the handler x the finally block, inside a loop of two rounds"""
    for a, b, c in itertools.product(FLOWS, list(FLOWS) + ["rethrow", "nohandler", "othertype"], list(FLOWS) + ["nofinally"]):
        if not a.startswith("throw") and b not in ("normal", "nohandler"):
            continue        # the handler is not reached
        hs = []
        if b == "rethrow":
            hs = [catch("", "h", [throw()])]
        elif b == "othertype":
            hs = [catch("int", "h")]
        elif b != "nohandler":
            hs = [catch("", "h", FLOWS[b]("handler"))]
        if b == "nohandler" and c == "nofinally":
            continue
        fin = None if c == "nofinally" else block(p("finally"), *FLOWS[c]("fin"))
        body = [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(
            p("round ", get("i")),
            try_(block(p("try"), if_(bin_("==", get("i"), lit(0)), block(*FLOWS[a]("try"))), p("try end")), hs, fin),
            p("after try"))), p("after loop")]
        yield "flow-%s/%s/%s" % (a, b, c), exc_program(body)


def exc_handlers():
    """two matching handlers: whatever the first one does, the second one of the same statement is not entered"""
    for t, h1, h2 in (("int", "int", ""), ("E1", "E1", "E0"), ("E1", "E0", ""), ("E2", "E1", "E0"), ("string", "string", "")):
        for b, c in itertools.product(list(FLOWS) + ["rethrow", "nested"], ("nofinally", "normal", "throw", "return")):
            first = {"rethrow": lambda: [throw()],
                     "nested": lambda: [try_(block(throw(THROWN[t]())), [catch(h1, "n")]), throw()]}.get(b, lambda: FLOWS[b]("handler"))()
            fin = None if c == "nofinally" else block(p("finally"), *FLOWS[c]("fin"))
            body = [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(
                try_(block(p("try"), throw(THROWN[t]())), [catch(h1, "1", first), catch(h2, "2")], fin),
                p("after try"))), p("after loop")]
            yield "handlers-%s-%s-%s/%s/%s" % (t, h1, h2 or "any", b, c), exc_program(body)


def exc_nested():
    """a try statement inside the try block, handler or finally block of another one; where the throw happens and who handles it"""
    tys = ("string", "E1", "none")
    for place in ("body", "handler", "finally"):
        for t_in in tys:
            for h_in in ("string", "E0", "", "none"):
                for h_out in ("string", "E0", "none"):
                    for fins in range(4):
                        th = [] if t_in == "none" else [throw(THROWN[t_in]())]
                        inner = try_(block(p("inner"), *th), [] if h_in == "none" else [catch(h_in, "i")],
                                     block(p("fin inner")) if fins & 1 or h_in == "none" else None)
                        outs = [] if h_out == "none" else [catch(h_out, "x", [inner] if place == "handler" else [])]
                        ob = [p("outer")]
                        if place == "body":
                            ob.append(inner)
                        elif place == "handler":
                            if h_out == "none":
                                continue
                            ob.append(throw(THROWN["E2" if h_out == "E0" else "string"]()))
                        fin = [p("fin outer")] if fins & 2 else []
                        if place == "finally":
                            fin = [p("fin outer"), inner, p("fin outer end")]
                            if fins & 2:
                                ob.append(throw(lit("pending")))
                        elif h_out == "none" and not fin:
                            continue
                        ob.append(p("outer end"))
                        body = [try_(block(*ob), outs, block(*fin) if fin else None), p("after")]
                        yield "nested-%s/%s/%s/%s/%d" % (place, t_in, h_in or "any", h_out, fins), exc_program(body)


def thrower(ty="E1"):
    return method("boom", [("v", "int")], "int",
                  [p("boom ", get("v")), if_(bin_(">", get("v"), lit(0)), block(throw(THROWN[ty]()))), p("no boom"), ret(get("v"))],
                  mods="modify throws", vis="private")


def exc_sites():
    """an exception raised at every kind of place where an expression is evaluated"""
    boom = fun("boom", [lit(1)], ["int"])
    quiet = fun("boom", [lit(0)], ["int"])
    lt = bin_("<", boom, lit(5))
    qt = bin_("<", quiet, lit(5))
    pair = method("pair", [("a", "int"), ("b", "int")], "int", [p("pair"), ret(bin_("+", get("a"), get("b")))],
                  mods="modify throws", vis="private")
    c = cls("T", [("mV", "int")], [
        method("Constructor", [("v", "int")], "void", [p("T ctor"), expr(asg("mV", fun("boom", [get("v")], ["int"]))), p("T made")], mods="throws"),
        method("Destructor", [], "void", [p("T dtor")], mods=""),
        method("m", [("v", "int")], "int", [p("m"), ret(fun("boom", [get("v")], ["int"]))], mods="modify throws"),
        method("me", [("v", "int")], "T", [p("me"), expr(fun("boom", [get("v")], ["int"])), ret(this)], mods="modify throws"),
        method("operator+", [("o", "T")], "int", [p("plus"), expr(fun("boom", [lit(1)], ["int"])), ret(lit(4))], mods="const throws"),
        method("operator==", [("o", "T")], "bool", [p("eq"), expr(fun("boom", [lit(1)], ["int"])), ret(lit(True))], mods="const throws"),
        method("=operator", [("none", "string")], "string", [p("tostring"), expr(fun("boom", [lit(1)], ["int"])), ret(lit("T!"))], mods="const throws"),
    ])
    T0 = new("T", [lit(0)], ["int"])
    sites = {
        "stmt": [expr(boom)],
        "decl": [decl("int", "x", boom), p("x")],
        "assign": [decl("int", "x", lit(4)), try_(block(expr(asg("x", boom))), [], block(p("x = ", get("x")))), p("x ", get("x")), expr(boom)],
        "compound": [decl("int", "x", lit(4)), try_(block(expr(asg("x", boom, "+"))), [], block(p("x = ", get("x")))), p("x ", get("x")), expr(boom)],
        "print": [print_(boom)],
        "bin-left": [decl("int", "x", bin_("+", boom, quiet))],
        "bin-right": [decl("int", "x", bin_("+", quiet, boom))],
        "arg1": [expr(fun("pair", [boom, quiet], ["int", "int"]))],
        "arg2": [expr(fun("pair", [quiet, boom], ["int", "int"]))],
        "nested-call": [expr(fun("pair", [fun("pair", [quiet, boom], ["int", "int"]), quiet], ["int", "int"]))],
        "and": [decl("bool", "b", and_(lt, qt)), p("b")],
        "and-right": [decl("bool", "b", and_(qt, lt)), p("b")],
        "or": [decl("bool", "b", or_(lt, qt)), p("b")],
        "or-skipped": [decl("bool", "b", or_(qt, lt)), p("b ", get("b")), expr(boom)],
        "tern-cond": [decl("int", "x", tern(lt, lit(1), lit(2)))],
        "tern-branch": [decl("int", "x", tern(lit(True), boom, quiet))],
        "tern-other": [decl("int", "x", tern(lit(False), boom, quiet)), p("x ", get("x")), expr(boom)],
        "neg": [decl("int", "x", un("-", boom))],
        "if": [if_(lt, block(p("then")), block(p("else")))],
        "while": [while_(lt, block(p("loop")))],
        "while-body": [decl("int", "i", lit(0)), while_(bin_("<", get("i"), lit(3)), block(expr(inc("i")), p("i ", get("i")), expr(fun("boom", [bin_("-", get("i"), lit(1))], ["int"]))))],
        "for-init": [for_(decl("int", "i", boom), bin_("<", get("i"), lit(2)), expr(inc("i")), block(p("body")))],
        "for-cond": [for_(decl("int", "i", lit(0)), lt, expr(inc("i")), block(p("body")))],
        "for-step": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(asg("i", boom)), block(p("body")))],
        "for-body": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(3)), expr(inc("i")), block(expr(fun("boom", [get("i")], ["int"]))))],
        "foreach": [foreach("int", "i", new("Seq", [lit(3)], ["int"]), block(expr(fun("boom", [get("i")], ["int"]))))],
        "foreach-expr": [foreach("int", "i", new("Seq", [boom], ["int"]), block(p("body")))],
        "switch": [switch(boom, [(lit(1), block(p("one"), break_()))], block(p("default"), break_()))],
        "case-body": [switch(quiet, [(lit(0), block(expr(boom), break_()))], block(p("default"), break_()))],
        "return": [ret(boom)],
        "throw-arg": [throw(new("E0", [cat(lit("x"), boom)], ["string"]))],
        "exit-arg": [exit_(boom)],
        "ctor": [decl("T", "o", new("T", [lit(1)], ["int"])), p("made")],
        "ctor-arg": [decl("T", "o", new("T", [boom], ["int"])), p("made")],
        "method": [decl("T", "o", T0), expr(meth("o", "m", [lit(1)], ["int"]))],
        "method-arg": [decl("T", "o", T0), expr(meth("o", "m", [boom], ["int"]))],
        "chain-1": [decl("T", "o", T0), decl("int", "x", meth(meth("o", "me", [lit(1)], ["int"]), "m", [lit(0)], ["int"]))],
        "chain-2": [decl("T", "o", T0), decl("int", "x", meth(meth("o", "me", [lit(0)], ["int"]), "m", [lit(1)], ["int"]))],
        "chain-arg": [decl("T", "o", T0), decl("int", "x", meth(meth("o", "me", [lit(0)], ["int"]), "m", [boom], ["int"]))],
        "operator": [decl("T", "o", T0), decl("int", "x", bin_("+", get("o"), get("o"), "T"))],
        "equal": [decl("T", "o", T0), if_(bin_("==", get("o"), get("o"), "T"), block(p("same")))],
        "cast": [decl("T", "o", T0), decl("string", "x", cast("string", get("o"), "plain"))],
        "is": [decl("bool", "x", is_(meth("o", "me", [lit(1)], ["int"]), "T"))],
    }
    sites["is"].insert(0, decl("T", "o", T0))
    for nm, st in sites.items():
        for wrap in ("bare", "finally", "block", "loop", "caller"):
            body = [p("start")]
            extra = [thrower(), pair]
            if wrap == "bare":
                body += st
            elif wrap == "finally":
                body += [try_(block(*st), [catch("int", "w")], block(p("fin")))]
            elif wrap == "block":
                body += [block(decl("int", "q", lit(3)), block(*st), p("q ", get("q")))]
            elif wrap == "loop":
                body += [for_(decl("int", "k", lit(0)), bin_("<", get("k"), lit(2)), expr(inc("k")), block(*st)), p("after loop")]
            else:
                extra.append(method("u", [], "int", st + [p("end of u"), ret(lit(6))], mods="modify throws", vis="private"))
                body += [decl("int", "z", bin_("+", lit(1), fun("u"))), p("z ", get("z"))]
            pr = exc_program(body, extra)
            pr["classes"] = pr["classes"] + [c]
            yield "site-%s/%s" % (nm, wrap), pr


def exc_uncaught():
    """exceptions nobody handles, thrown at different depths and with finally blocks on the way"""
    for t, mk in THROWN.items():
        for depth in range(3):
            for fin in (0, 1, 2):
                fs = []
                for i in range(depth):
                    b = [p("f%d" % i), throw(mk()) if i == 0 else expr(fun("f%d" % (i - 1)))]
                    if fin == 1:
                        b = [try_(block(*b), [catch("F0" if t != "F0" else "E0", "n")], block(p("fin%d" % i)))]
                    fs.append(method("f%d" % i, [], "int", b + [p("end f%d" % i), ret(lit(1))], mods="modify throws", vis="private"))
                m = [p("main"), expr(fun("f%d" % (depth - 1))) if depth else throw(mk())]
                if fin == 2:
                    m = [try_(block(*m), [catch("", "m", [p("handling"), throw()])], block(p("fin main")))]
                yield "uncaught-%s/%d/%d" % (t, depth, fin), program(exceptions(), fs, m + [p("unreachable"), ret(lit(3))])
