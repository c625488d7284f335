"""Exhaustive families about the life of objects and of variables (L04, L05)."""
import itertools

from families import catch, p, seq_classes
from gen import cat, class_r, exceptions, tracers
from lang import *

R_AT = ["string", "int"]


def newr(n, v=1):
    return new("R", [lit(n) if isinstance(n, str) else n, lit(v) if isinstance(v, int) else v], R_AT)


def holder_classes():
    """an object that owns another one; a collection of objects; a class that inherits a member"""
    hold = cls("Hold", [("mR", "R", None, "protected")], [
        method("Constructor", [("r", "R")], "void", [expr(asg("mR", get("r"))), p("C hold")], mods=""),
        method("Destructor", [], "void", [p("D hold")], mods=""),
        method("get", [], "R", [ret(get("mR"))], mods="const"),
        method("set", [("r", "R")], "void", [expr(asg("mR", get("r")))], mods="modify"),
        method("swap", [("o", "Hold")], "void", [decl("R", "t", meth("o", "get")), expr(meth("o", "set", [get("mR")], ["R"])),
                                                 expr(asg("mR", get("t")))], mods="modify"),
        method("drop", [], "void", [delete("mR")], mods="modify"),
        method("me", [], "Hold", [ret(this)], mods="modify"),
    ])
    derived = cls("Hold2", [("mS", "R")], [
        method("Constructor", [("a", "R"), ("b", "R")], "void",
               [expr(base("Constructor", [get("a")], ["R"])), expr(asg("mS", get("b"))), p("C hold2")], mods=""),
        method("Destructor", [], "void", [p("D hold2")], mods=""),
        method("second", [], "R", [ret(get("mS"))], mods="const"),
    ], base="Hold")
    quiet = cls("Quiet", [("mR", "R")], [
        method("Constructor", [("r", "R")], "void", [expr(asg("mR", get("r")))], mods=""),
        method("get", [], "R", [ret(get("mR"))], mods="const"),
    ])
    it = cls("RIter", [("mCur", "int"), ("mEnd", "int"), ("mTag", "string")], [
        method("Constructor", [("t", "string"), ("n", "int")], "void",
               [expr(asg("mTag", get("t"))), expr(asg("mCur", lit(0))), expr(asg("mEnd", get("n")))], mods=""),
        method("Destructor", [], "void", [p("D iter")], mods=""),
        method("hasNext", [], "bool", [ret(bin_("<", get("mCur"), get("mEnd")))], mods="const"),
        method("next", [], "R", [expr(inc("mCur")), ret(newr(cat(get("mTag"), get("mCur"))))], mods="modify throws"),
    ])
    coll = cls("RSeq", [("mTag", "string"), ("mN", "int")], [
        method("Constructor", [("t", "string"), ("n", "int")], "void",
               [expr(asg("mTag", get("t"))), expr(asg("mN", get("n")))], mods=""),
        method("Destructor", [], "void", [p("D seq")], mods=""),
        method("getIterator", [], "RIter", [ret(new("RIter", [get("mTag"), get("mN")], ["string", "int"]))], mods="const throws"),
    ])
    return [hold, derived, quiet, it, coll]


def obj_funcs():
    def f(n, ps, r, b):
        return method(n, ps, r, b, mods="modify throws", vis="private")
    return [
        f("same", [("o", "R")], "R", [p("same"), ret(get("o"))]),
        f("show", [("o", "R")], "int", [p("show ", meth("o", "name")), ret(meth("o", "value"))]),
        f("mk", [("n", "string")], "R", [p("mk"), decl("R", "l", newr(get("n"))), ret(get("l"))]),
        f("mk2", [("n", "string")], "R", [p("mk2"), ret(newr(get("n")))]),
        f("two", [("a", "R"), ("b", "R")], "int", [p("two ", meth("a", "name"), meth("b", "name")), ret(lit(2))]),
        f("ints", [("a", "int"), ("b", "int")], "int", [ret(bin_("+", get("a"), get("b")))]),
        f("over", [("o", "R")], "int", [expr(asg("o", newr("over"))), p("over ", meth("o", "name")), ret(lit(0))]),
        f("boom", [("v", "int")], "int", [if_(bin_(">", get("v"), lit(0)), block(throw(lit("boom")))), ret(get("v"))]),
    ]


def str_at(f):
    return fun(f[0], [lit(f[1])], ["string"])


# ways to hold the object "x": statements run before the way out, and an expression that still reaches it
HOLD = {
    "local": lambda: ([decl("R", "o", newr("x"))], "o"),
    "alias": lambda: ([decl("R", "o", newr("x")), decl("R", "o2", get("o"))], "o"),
    "result": lambda: ([decl("R", "o", str_at(("mk", "x")))], "o"),
    "result2": lambda: ([decl("R", "o", fun("same", [str_at(("mk2", "x"))], ["R"]))], "o"),
    "member": lambda: ([decl("Hold", "h", new("Hold", [newr("x")], ["R"])), decl("R", "o", meth("h", "get"))], "o"),
    "memberonly": lambda: ([decl("Hold", "o", new("Hold", [newr("x")], ["R"]))], None),
    "derived": lambda: ([decl("Hold2", "o", new("Hold2", [newr("x"), newr("y")], ["R", "R"]))], None),
    "asbase": lambda: ([decl("Hold", "o", cast("Hold", new("Hold2", [newr("x"), newr("y")], ["R", "R"]), "plain"))], None),
    "deep": lambda: ([decl("Quiet", "o", new("Quiet", [meth(newholder(), "get")], ["R"]))], None),
    "shared": lambda: ([decl("R", "s", newr("x")), decl("Hold", "o", new("Hold", [get("s")], ["R"])),
                        decl("Quiet", "o3", new("Quiet", [get("s")], ["R"]))], None),
    "linked": lambda: ([decl("R", "o", newr("x")), expr(meth("o", "link", [newr("y")], ["R"]))], "o"),
    "selflink": lambda: ([decl("R", "o", newr("x")), expr(meth("o", "link", [newr("y")], ["R"])),
                          expr(meth("o", "link", [meth("o", "other")], ["R"]))], "o"),
    "cycle": lambda: ([decl("R", "o", newr("x")), expr(meth("o", "link", [get("o")], ["R"]))], "o"),
    "uncycle": lambda: ([decl("R", "o", newr("x")), expr(meth("o", "link", [get("o")], ["R"])),
                         expr(meth("o", "link", [newr("z")], ["R"]))], "o"),
    "var": lambda: ([decl("R", "o"), expr(asg("o", newr("x")))], "o"),
    "dropmember": lambda: ([decl("Hold", "o", new("Hold", [newr("x")], ["R"])), expr(meth("o", "drop")), p("dropped")], None),
    "setmember": lambda: ([decl("Hold", "o", new("Hold", [newr("x")], ["R"])),
                           expr(meth("o", "set", [newr("y")], ["R"])), p("set")], None),
    "swap": lambda: ([decl("Hold", "o", new("Hold", [newr("x")], ["R"])), decl("Hold", "h", new("Hold", [newr("y")], ["R"])),
                      expr(meth("o", "swap", [get("h")], ["Hold"])), p("swapped")], None),
}


def newholder():
    # a call needs a receiver that is a call itself
    return meth("hh", "me")


OUT = {
    "fall": lambda o: [],
    "return": lambda o: [p("ret"), ret(lit(4))],
    "returnit": lambda o: [p("ret"), ret(fun("show", [get(o)], ["R"]))] if o else None,
    "throw": lambda o: [p("thr"), throw(lit("t"))],
    "throwit": lambda o: [p("thr"), throw(get(o))] if o else None,
    "break": lambda o: [p("brk"), break_()],
    "continue": lambda o: [p("cnt"), continue_()],
    "exit": lambda o: [p("ext"), exit_(lit(6))],
    "assignnew": lambda o: [expr(asg(o, newr("n"))), p("assigned")] if o else None,
    "assignself": lambda o: [expr(asg(o, get(o))), p("assigned ", meth(o, "name"))] if o else None,
    "assignsame": lambda o: [expr(asg(o, fun("same", [get(o)], ["R"]))), p("assigned ", meth(o, "name"))] if o else None,
    "assignnull": lambda o: [expr(asg(o, null("R"))), p("assigned")] if o else None,
    "assignother": lambda o: [expr(asg(o, meth(o, "other"))), p("assigned")] if o else None,
    "delete": lambda o: [delete(o), p("deleted")] if o else None,
    "deletetwice": lambda o: [delete(o), p("deleted"), delete(o), p("again"), expr(asg(o, newr("n"))), p("new ", meth(o, "name"))] if o else None,
    "keep": lambda o: [expr(asg("kept", get(o))), p("kept ", meth(o, "name"))] if o else None,
    "overparam": lambda o: [expr(fun("over", [get(o)], ["R"])), p("still ", meth(o, "name"))] if o else None,
    "call": lambda o: [expr(fun("show", [get(o)], ["R"])), p("shown")] if o else None,
    "made": lambda o: [decl("R", "q", meth(o, "make", [lit("m")], ["string"])), p("made ", meth("q", "name"))] if o else None,
    "boom": lambda o: [expr(fun("ints", [fun("show", [newr("tmp")], ["R"]), fun("boom", [lit(1)], ["int"])], ["int", "int"]))],
}


def life_program(body):
    f = method("t", [], "int", body + [p("end of t"), ret(lit(1))], mods="modify throws", vis="private")

    def call(i):
        return try_(block(p("t%d = " % i, fun("t"))), [catch("string", "o%d" % i), ("R", "r", block(p("caught R ", meth("r", "name"))))])
    return program([class_r()] + holder_classes() + exceptions(), obj_funcs() + [f],
                   [call(1), p("between"), call(2), p("last"), ret(lit(5))])


def life_matrix():
    """every way to hold an object x every way to leave or overwrite, in a block inside a loop, in a method body, in a try"""
    for h, o in itertools.product(HOLD, OUT):
        for ctx in ("loop", "body", "try", "switch"):
            st, name = HOLD[h]()
            out = OUT[o](name)
            if out is None or (o in ("break", "continue") and ctx in ("body", "try")) or (o == "continue" and ctx == "switch"):
                continue
            pre = [decl("R", "kept")]
            if h == "deep":
                pre.append(decl("Hold", "hh", new("Hold", [newr("x")], ["R"])))
            seq = [p("start")] + st + [p("held")] + out
            if o not in ("return", "returnit", "throw", "throwit", "break", "continue", "exit"):
                seq.append(p("going"))
            if ctx == "loop":
                body = pre + [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(*seq)), p("after loop")]
            elif ctx == "body":
                body = pre + [block(*seq), p("after block")]
            elif ctx == "try":
                body = pre + [try_(block(*seq), [catch("int", "z")], block(p("fin"))), p("after try")]
            else:
                if o not in ("return", "returnit", "throw", "throwit", "break", "exit"):
                    seq.append(break_())
                body = pre + [switch(lit(1), [(lit(1), block(*seq))], block(p("wrong"), break_())), p("after switch")]
            yield "life-%s/%s/%s" % (h, o, ctx), life_program(body)


def life_temps():
    """objects nobody has a name for: where they appear and when they go"""
    mk = str_at(("mk", "x"))
    show = fun("show", [newr("x")], ["R"])
    cases = {
        "stmt": [expr(mk)],
        "stmt-show": [expr(show)],
        "print": [print_(show)],
        "receiver": [decl("string", "n", meth(mk, "name")), p("n ", get("n"))],
        "receiver2": [decl("string", "n", meth(meth(mk, "make", [lit("+")], ["string"]), "name")), p("n ", get("n"))],
        "chain-other": [decl("R", "o", newr("a")), expr(meth("o", "link", [newr("b")], ["R"])),
                        decl("string", "n", meth(meth("o", "other"), "name")), p("n ", get("n"))],
        "args": [expr(fun("two", [newr("a"), newr("b")], ["R", "R"])), p("done")],
        "args-same": [decl("R", "o", newr("a")), expr(fun("two", [get("o"), get("o")], ["R", "R"])), p("done")],
        "nested": [expr(fun("two", [fun("same", [newr("a")], ["R"]), str_at(("mk2", "b"))], ["R", "R"])), p("done")],
        "operands": [decl("int", "v", bin_("+", fun("show", [newr("a")], ["R"]), fun("show", [newr("b")], ["R"]))), p("v ", get("v"))],
        "condition": [if_(bin_("==", show, lit(1)), block(p("then")), block(p("else"))), p("after")],
        "while": [decl("int", "i", lit(0)), while_(bin_("<", bin_("+", get("i"), show), lit(3)), block(p("body"), expr(inc("i")))), p("after")],
        "for": [for_(decl("int", "i", show), bin_("<", get("i"), bin_("+", lit(2), fun("show", [newr("c")], ["R"]))),
                     expr(asg("i", fun("show", [newr("s")], ["R"]), "+")), block(p("body"))), p("after")],
        "ternary": [decl("R", "o", tern(lit(True), newr("a"), newr("b"))), p("o ", meth("o", "name"))],
        "and": [decl("bool", "b", and_(bin_("==", show, lit(1)), bin_("==", fun("show", [newr("y")], ["R"]), lit(2)))), p("b")],
        "switch": [switch(show, [(lit(1), block(p("one"), break_()))], block(p("default"), break_())), p("after")],
        "foreach": [foreach("R", "o", new("RSeq", [lit("i"), lit(2)], ["string", "int"]), block(p("body ", meth("o", "name")))), p("after")],
        "foreach-break": [foreach("R", "o", new("RSeq", [lit("i"), lit(3)], ["string", "int"]),
                                  block(p("body ", meth("o", "name")), break_())), p("after")],
        "foreach-continue": [foreach("R", "o", new("RSeq", [lit("i"), lit(3)], ["string", "int"]),
                                     block(p("body ", meth("o", "name")), continue_())), p("after")],
        "foreach-return": [foreach("R", "o", new("RSeq", [lit("i"), lit(3)], ["string", "int"]),
                                   block(p("body ", meth("o", "name")), ret(lit(8)))), p("after")],
        "foreach-throw": [foreach("R", "o", new("RSeq", [lit("i"), lit(3)], ["string", "int"]),
                                  block(p("body ", meth("o", "name")), throw(get("o")))), p("after")],
        "foreach-keep": [decl("R", "k"), foreach("R", "o", new("RSeq", [lit("i"), lit(3)], ["string", "int"]),
                                                 block(expr(asg("k", get("o"))), p("kept"))), p("k ", meth("k", "name"))],
        "foreach-var": [decl("RSeq", "q", new("RSeq", [lit("i"), lit(2)], ["string", "int"])),
                        foreach("R", "o", get("q"), block(p("body ", meth("o", "name")))), p("after")],
        "throw": [try_(block(throw(newr("x"))), [("R", "e", block(p("caught ", meth("e", "name"))))]), p("after")],
        "throw-keep": [decl("R", "k"), try_(block(throw(newr("x"))), [("R", "e", block(expr(asg("k", get("e")))))]), p("k ", meth("k", "name"))],
        "throw-rethrow": [try_(block(try_(block(throw(newr("x"))), [("R", "e", block(p("first"), throw()))])),
                               [("R", "g", block(p("second ", meth("g", "name"))))]), p("after")],
        "throw-other": [try_(block(try_(block(throw(newr("x"))), [("R", "e", block(p("first"), throw(newr("y"))))])),
                             [("R", "g", block(p("second ", meth("g", "name"))))]), p("after")],
        "throw-any": [try_(block(throw(newr("x"))), [("", "", block(p("any")))]), p("after")],
        "throw-swallow": [try_(block(throw(newr("x"))), [], block(p("fin"))), p("after")],
        "throw-return": [try_(block(throw(newr("x"))), [("R", "e", block(ret(meth("e", "value"))))], block(p("fin")))],
        "throw-finthrow": [try_(block(try_(block(throw(newr("x"))), [], block(p("fin"), throw(newr("y"))))),
                                [("R", "e", block(p("got ", meth("e", "name"))))]), p("after")],
        "assign-chain": [decl("R", "a"), decl("R", "b"), expr(asg("a", asg("b", newr("x")))), p("a ", meth("a", "name")), delete("a"), p("b ", meth("b", "name"))],
        "return-local": [decl("R", "l", newr("x")), ret(fun("show", [get("l")], ["R"]))],
        "ctor-arg": [decl("Hold", "h", new("Hold", [newr("x")], ["R"])), p("made")],
        "ctor-temp": [decl("string", "n", typeid(new("Hold", [newr("x")], ["R"]))), p("made ", get("n"))],
        "holder-chain": [decl("Hold", "h", new("Hold", [newr("x")], ["R"])), decl("string", "n", meth(meth("h", "get"), "name")), p("n ", get("n"))],
        "assign-from-member": [decl("R", "o", newr("a")), expr(meth("o", "link", [newr("b")], ["R"])), expr(asg("o", meth("o", "other"))), p("o ", meth("o", "name"))],
        "list-walk": [decl("R", "o", newr("a")), expr(meth("o", "link", [newr("b")], ["R"])),
                      decl("R", "z", meth("o", "other")), expr(meth("z", "link", [newr("c")], ["R"])),
                      expr(asg("o", meth("o", "other"))), p("1"), expr(asg("o", meth("o", "other"))), p("2"), expr(asg("z", get("o"))), p("3")],
        "overwrite-loop": [decl("R", "o"), for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(3)), expr(inc("i")),
                                                 block(expr(asg("o", newr(cat(lit("n"), get("i"))))), p("assigned"))), p("after")],
        "shadow": [decl("R", "o", newr("outer")), block(decl("R", "o", newr("inner")), p("in ", meth("o", "name"))), p("out ", meth("o", "name"))],
        "is": [decl("bool", "b", is_(mk, "R")), p("b ", get("b"))],
        "typeid": [p("t ", typeid(mk))],
        "copy": [decl("R", "o", newr("a")), decl("R", "c", copy_("o")), p("o ", meth("o", "name"), " c ", meth("c", "name")), delete("o"), p("c ", meth("c", "name"))],
        "copy-over": [decl("R", "o", newr("a")), expr(asg("o", copy_("o"))), p("o ", meth("o", "name")), expr(asg("o", copy_("o"))), p("o ", meth("o", "name"))],
        "copy-arg": [decl("R", "o", newr("a")), expr(fun("two", [copy_("o"), copy_("o")], ["R", "R"])), p("done")],
        "copy-operand": [decl("R", "o", newr("a")), decl("int", "v", bin_("+", fun("show", [copy_("o")], ["R"]), meth("o", "add", [lit(3)], ["int"]))), p("v ", get("v"))],
        "copy-throw": [decl("R", "o", newr("a")), try_(block(throw(copy_("o"))), [("R", "e", block(p("caught ", meth("e", "name"))))]), p("after")],
        "copy-member": [decl("R", "o", newr("a")), expr(meth("o", "link", [newr("b")], ["R"])), decl("R", "z", meth("o", "other")), expr(meth("o", "link", [copy_("z")], ["R"])), p("linked")],
    }
    for n, st in cases.items():
        for wrap in ("plain", "loop", "callee", "then-throw"):
            if wrap == "then-throw" and st[-1]["k"] == "return":
                continue
            if wrap == "plain":
                body = [p("start")] + st
            elif wrap == "loop":
                body = [for_(decl("int", "lc", lit(0)), bin_("<", get("lc"), lit(2)), expr(inc("lc")), block(*st)), p("after loop")]
            elif wrap == "then-throw":
                body = [p("start")] + st + [throw(lit("late"))]
                pr = life_program(body)
                pr["funcs"][-1]["body"] = body
                yield "temp-%s/%s" % (n, wrap), pr
                continue
            else:
                pr = life_program([p("calls "), decl("int", "r", fun("u")), p("r ", get("r"))])
                pr["funcs"].insert(-1, method("u", [], "int", st + [p("end of u"), ret(lit(2))], mods="modify throws", vis="private"))
                yield "temp-%s/%s" % (n, wrap), pr
                continue
            yield "temp-%s/%s" % (n, wrap), life_program(body)


def life_receivers():
    """an object whose last reference goes away while it is in use: as receiver of the running method, as owner of the
    variable that is assigned, inside its own destructor"""
    def m(n, b, ret_="int", ps=()):
        return method(n, list(ps), ret_, b, mods="modify throws")

    def live(tag):
        return p(tag + " ", get("mName"), " ", get("mV"))
    drops = {
        "setnull": [expr(asg("g", null("S")))],
        "setnew": [expr(asg("g", new("S", [lit("n"), lit(9)], R_AT)))],
        "delete": [delete("g")],
        "call": [expr(fun("drop"))],
        "nested": [expr(self_("inner"))],
        "twice": [delete("g"), expr(asg("g", new("S", [lit("n"), lit(9)], R_AT))), delete("g")],
        "caught": [try_(block(delete("g"), throw(lit("z"))), [catch("string", "cz")])],
        "self": [decl("S", "me", this), delete("g"), delete("me")],
    }
    ends = {
        "ret": [ret(get("mV"))],
        "retcalc": [ret(bin_("+", get("mV"), self_("num")))],
        "throw": [throw(lit("late"))],
        "throwthis": [throw(this)],
        "assign": [expr(asg("mV", lit(44))), expr(asg("mV", lit(1), "+")), ret(self_("num"))],
        "member": [expr(asg("mR", newr("q"))), ret(meth("mR", "value"))],
        "exit": [if_(bin_("==", get("mV"), lit(3)), block(exit_(lit(7)))), ret(lit(0))],
    }
    R2 = ["string", "R"]
    uses = {
        "stmt": [expr(meth("g", "go"))],
        "value": [decl("int", "v", meth("g", "go")), p("v ", get("v"))],
        "operand": [decl("int", "v", bin_("+", meth("g", "go"), lit(100))), p("v ", get("v"))],
        "second": [decl("int", "v", bin_("+", meth("g", "num"), meth("g", "go"))), p("v ", get("v"))],
        "arg": [decl("int", "v", fun("ints", [meth("g", "num"), meth("g", "go")], ["int", "int"])), p("v ", get("v"))],
        "held": [decl("S", "h", get("g")), decl("int", "v", meth("h", "go")), p("v ", get("v"), " ", meth("h", "num"))],
        "self": [expr(asg("g", meth("g", "gome"))), p("g ", meth("g", "num"))],
        "chain": [decl("int", "v", meth(meth("g", "gome"), "num")), p("v ", get("v"))],
        "cond": [if_(bin_(">", meth("g", "go"), lit(0)), block(p("yes")), block(p("no")))],
        "print": [print_(meth("g", "go"))],
        "param": [decl("int", "v", meth("g", "gop", [lit(1)], ["int"])), p("v ", get("v"))],
        "params": [decl("int", "v", meth("g", "gopp", [lit("a"), newr("x")], R2)), p("v ", get("v"))],
        "default": [expr(meth("g", "god")), p("v")],
        "given": [expr(meth("g", "god", [lit(2)], ["int"])), p("v")],
        "itself": [decl("int", "v", meth("g", "gos", [get("g")], ["S"])), p("v ", get("v"))],
        "operator": [decl("int", "v", opm("g", "-", lit(1), "int")), p("v ", get("v"))],
    }
    few = ("param", "params", "default", "given", "itself", "operator")
    for d, e, u in itertools.product(drops, ends, uses):
        if u in ("self", "chain") and e not in ("ret", "throw"):
            continue
        if u in few and (d not in ("setnew", "delete", "call", "nested") or e not in ("retcalc", "throw", "assign")):
            continue
        body = [live("in")] + drops[d] + [live("dropped")]
        s = cls("S", [("mName", "string"), ("mV", "int"), ("mR", "R")], [
            method("Constructor", [("n", "string"), ("v", "int")], "void",
                   [expr(asg("mName", get("n"))), expr(asg("mV", get("v"))), p("C ", get("n"))], mods=""),
            method("Destructor", [], "void", [p("D ", get("mName"), get("mV"))], mods=""),
            method("num", [], "int", [ret(get("mV"))], mods="const"),
            m("inner", [live("inner"), delete("g"), live("inner2"), ret(lit(0))]),
            m("go", body + ends[e]),
            m("gop", body + [p("x ", get("x"))] + ends[e], ps=[("x", "int")]),
            m("gopp", body + [p("x ", get("x"), meth("y", "value"))] + ends[e], ps=[("x", "string"), ("y", "R")]),
            m("operator-", body + [p("x ", get("x"))] + ends[e], ps=[("x", "int")]),
            m("god", body + [p("x ", get("x"))] + ends[e], ps=[param("x", "int", lit(5))]),
            m("gos", body + [p("x ", meth("x", "num"))] + ends[e], ps=[("x", "S")]),
            m("gome", body + (ends[e] if e == "throw" else [ret(this)]), "S"),
        ])
        pr = life_program([expr(asg("g", new("S", [lit("s"), lit(3)], R_AT))), p("start")] + uses[u] + [p("after")])
        pr["classes"].append(s)
        pr["globals"] = [("g", "S", None)]
        pr["late_globals"] = True
        pr["funcs"].insert(0, method("drop", [], "void", [p("drop"), delete("g")], mods="modify throws", vis="private"))
        if e == "throwthis":
            pr["main"][0]["cs"].append({"ty": "S", "n": "sx", "b": block(p("caught S ", meth("sx", "num")))})
            pr["main"][2]["cs"].append({"ty": "S", "n": "sy", "b": block(p("caught S ", meth("sy", "num")))})
        yield "recv-%s/%s/%s" % (d, e, u), pr
    # the value of an assignment changes who owns the target
    chg = {
        "drop": [p("chg"), delete("g"), ret(lit(7))],
        "other": [p("chg"), expr(asg("g", new("T", [lit("n")], ["string"]))), ret(lit(7))],
        "same": [p("chg"), expr(asg("g", get("g"))), ret(lit(7))],
        "moved": [p("chg"), decl("T", "t", get("g")), expr(asg("g", new("T", [lit("n")], ["string"]))), expr(asg(("g", "nx"), get("t"))), ret(lit(7))],
    }
    tcls = cls("T", [("v", "int", None, "public"), ("n", "string", None, "public"), ("nx", "T", None, "public")], [
        method("Constructor", [("a", "string")], "void", [expr(asg("n", get("a"))), expr(asg("v", lit(1)))], mods=""),
        method("Destructor", [], "void", [p("D ", get("n"), get("v"))], mods="")])
    how = {
        "plain": [expr(asg(("g", "v"), fun("chg")))],
        "sum": [expr(asg(("g", "v"), bin_("+", bin_("+", lit(1), fun("chg")), lit(2))))],
        "local": [decl("T", "l", get("g")), expr(asg(("l", "v"), fun("chg"))), p("l ", get("l", "n"), get("l", "v"))],
        "deep": [expr(asg(("g", "nx"), new("T", [lit("x")], ["string"]))), expr(asg(("g", "nx", "v"), fun("chg")))],
        "obj": [expr(asg(("g", "nx"), fun("chgt")))],
    }
    for c, h in itertools.product(chg, how):
        if (c, h) == ("drop", "obj"):
            continue        # writing to a null object ends the program, what is released then is not specified
        pr = life_program([expr(asg("g", new("T", [lit("s")], ["string"]))), p("start")] + how[h] +
                          [p("after"), p("g ", get("g", "n"), get("g", "v"))])
        pr["classes"].append(tcls)
        pr["globals"] = [("g", "T", None)]
        pr["late_globals"] = True
        pr["funcs"].insert(0, method("chg", [], "int", chg[c], mods="modify throws", vis="private"))
        pr["funcs"].insert(0, method("chgt", [], "T", chg[c][:-1] + [ret(new("T", [lit("r")], ["string"]))], mods="modify throws", vis="private"))
        yield "owner-%s/%s" % (c, h), pr
    # destructors that do things
    dt = {
        "call": [expr(self_("hello")), p("D ", get("mName"))],
        "member": [p("D ", get("mName"), " ", meth("mR", "name"))],
        "newlocal": [decl("R", "l", newr("dl")), p("D ", get("mName"), meth("l", "name"))],
        "global": [expr(asg("kept", get("mR"))), p("D ", get("mName"))],
        "clear": [delete("mR"), p("D ", get("mName"))],
        "dropglobal": [delete("kept"), p("D ", get("mName"))],
        "this": [expr(fun("see", [this], ["S"])), p("D ", get("mName"))],
        "catch": [try_(block(throw(lit("in dtor"))), [catch("string", "cd")], block(p("fin"))), p("D ", get("mName"))],
        "loop": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(decl("R", "l", newr("dl")))), p("D ", get("mName"))],
    }
    when = {
        "scope": [block(decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), p("made")), p("after")],
        "assign": [decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), expr(asg("s", new("S", [lit("u"), newr("w")], ["string", "R"]))), p("after")],
        "delete": [decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), delete("s"), p("after")],
        "temp": [expr(fun("see", [new("S", [lit("s"), newr("r")], ["string", "R"])], ["S"])), p("after")],
        "return": [decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), ret(lit(3))],
        "throw": [decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), throw(lit("th"))],
        "thrown": [try_(block(throw(new("S", [lit("s"), newr("r")], ["string", "R"]))), [("S", "x", block(p("got")))]), p("after")],
        "two": [decl("S", "s", new("S", [lit("s"), newr("r")], ["string", "R"])), delete("s"),
                decl("S", "s2", new("S", [lit("t"), newr("r2")], ["string", "R"])), delete("s2"), p("after")],
    }
    for i, (d, w) in enumerate(itertools.product(dt, when)):
        s = cls("S", [("mName", "string"), ("mR", "R")], [
            method("Constructor", [("n", "string"), ("r", "R")], "void", [expr(asg("mName", get("n"))), expr(asg("mR", get("r")))], mods=""),
            method("Destructor", [], "void", dt[d], mods="modify", vis=("public", "protected", "private")[i % 3]),
            method("hello", [], "void", [p("hello ", get("mName"))], mods="modify"),
            method("name", [], "string", [ret(get("mName"))], mods="const"),
        ])
        pr = life_program([p("start")] + when[w])
        pr["classes"].append(s)
        pr["globals"] = [("kept", "R", None)]
        pr["late_globals"] = True
        pr["funcs"].insert(0, method("see", [("s", "S")], "void", [p("see ", meth("s", "name"))], mods="modify throws", vis="private"))
        yield "dtor-%s/%s" % (d, w), pr


# ------------------------------------------------------------------ L05: variables

def scoping():
    """nested declarations of one name: which levels declare it, which assign it (all combinations over three levels)"""
    for lv in itertools.product(("none", "decl", "assign", "declassign"), repeat=3):
        for kinds in itertools.product(("block", "for", "while", "if", "switch", "try", "catch", "finally", "else", "default", "foreach"), repeat=2):
            if kinds[0] != kinds[1] and "block" not in kinds:
                continue
            def act(i):
                a = lv[i]
                r = []
                if "decl" in a:
                    r.append(decl("int", "x", lit(10 * (i + 1))))
                if "assign" in a:
                    r.append(expr(asg("x", lit(i + 1), "+")))
                return r + [p("x%d " % i, get("x"))]

            def wrap(k, i, b):
                if k == "block":
                    return [block(*b)]
                if k == "for":
                    return [for_(decl("int", "i%d" % i, lit(0)), bin_("<", get("i%d" % i), lit(2)), expr(inc("i%d" % i)), block(*b))]
                if k == "while":
                    return [decl("int", "i%d" % i, lit(0)), while_(bin_("<", get("i%d" % i), lit(2)), block(expr(inc("i%d" % i)), *b))]
                if k == "if":
                    return [if_(lit(True), block(*b))]
                if k == "switch":
                    return [switch(lit(1), [(lit(1), block(*(b + [break_()])))])]
                if k == "try":
                    return [try_(block(*b), [], block(p("fin x ", get("x"))))]
                if k == "finally":
                    return [try_(block(p("try")), [], block(*b))]
                if k == "else":
                    return [if_(lit(False), block(p("no")), block(*b))]
                if k == "default":
                    return [switch(lit(2), [(lit(1), block(p("no"), break_()))], block(*(b + [break_()])))]
                if k == "foreach":
                    return [foreach("int", "i%d" % i, new("Seq", [lit(2)], ["int"]), block(*b))]
                return [try_(block(throw(lit("s"))), [("string", "e%d" % i, block(*b))])]
            inner = act(2) + [p("end2 ", get("x"))]
            mid = act(1) + wrap(kinds[1], 2, inner) + [p("end1 ", get("x"))]
            top = wrap(kinds[0], 1, mid)
            first = act(0)
            f = method("t", [("x", "int")] if "decl" not in lv[0] else [], "int",
                       first + top + [p("end0 ", get("x")), ret(get("x"))], mods="modify throws", vis="private")
            c = fun("t", [lit(5)], ["int"]) if "decl" not in lv[0] else fun("t")
            yield "scope-%s/%s" % ("-".join(lv), "-".join(kinds)), program(seq_classes(), [f], [p("t ", c), p("t ", c), ret(lit(0))])


def var_misc():
    """values copy, objects alias; members, statics, globals, defaults, recursion"""
    cell = cls("Cell", [("mV", "int", 3), ("mS", "string"), ("mB", "bool", True)], [
        method("Constructor", [], "void", [], mods=""),
        method("get", [], "int", [ret(get("mV"))], mods="const"),
        method("set", [("v", "int")], "void", [expr(asg("mV", get("v")))], mods="modify"),
        method("setThis", [("mV", "int")], "void", [expr(asg(("this", "mV"), get("mV")))], mods="modify"),
        method("hide", [("mV", "int")], "int", [expr(asg("mV", lit(1), "+")), ret(get("mV"))], mods="modify"),
        method("local", [], "int", [decl("int", "mV", lit(70)), expr(inc("mV")), ret(get("mV"))], mods="modify"),
        method("text", [], "string", [ret(cat(get("mS"), lit("/"), get("mV"), lit("/"), get("mB")))], mods="const"),
        method("app", [("t", "string")], "void", [expr(asg("mS", cat(get("mS"), get("t"))))], mods="modify"),
    ])
    sub = cls("Sub", [("mW", "int", 8)], [
        method("Constructor", [], "void", [], mods=""),
        method("both", [], "int", [ret(bin_("+", meth_self("get"), get("mW")))], mods="const"),
        method("setW", [("w", "int")], "void", [expr(asg("mW", get("w")))], mods="modify"),
    ], base="Cell")

    def f(n, ps, r, b):
        return method(n, ps, r, b, mods="modify throws", vis="private")
    funcs = [
        f("byVal", [("v", "int")], "int", [expr(asg("v", lit(1), "+")), ret(get("v"))]),
        f("strVal", [("v", "string")], "string", [expr(asg("v", cat(get("v"), lit("!")))), ret(get("v"))]),
        f("boolVal", [("v", "bool")], "bool", [expr(asg("v", un("!", get("v")))), ret(get("v"))]),
        f("byRef", [("c", "Cell")], "int", [expr(meth("c", "set", [lit(50)], ["int"])), ret(lit(0))]),
        f("reseat", [("c", "Cell")], "int", [expr(asg("c", new("Cell"))), expr(meth("c", "set", [lit(60)], ["int"])), ret(meth("c", "get"))]),
        f("def1", [("a", "int"), param("b", "int", lit(4))], "int", [expr(asg("b", get("a"), "+")), ret(get("b"))]),
        f("def2", [param("a", "string", lit("d")), param("b", "int", lit(7)), param("c", "bool", lit(True))], "string",
          [ret(cat(get("a"), lit(","), get("b"), lit(","), get("c")))]),
        f("fact", [("n", "int")], "int", [if_(bin_("<=", get("n"), lit(1)), block(ret(lit(1)))),
                                          decl("int", "m", fun("fact", [bin_("-", get("n"), lit(1))], ["int"])),
                                          expr(asg("m", get("n"), "*")), ret(get("m"))]),
        f("fib", [("n", "int")], "int", [decl("int", "l", get("n")), if_(bin_("<", get("n"), lit(2)), block(ret(get("n")))),
                                         decl("int", "a", fun("fib", [bin_("-", get("l"), lit(1))], ["int"])),
                                         decl("int", "b", fun("fib", [bin_("-", get("l"), lit(2))], ["int"])),
                                         p("fib ", get("l"), lit(" "), get("n")), ret(bin_("+", get("a"), get("b")))]),
        f("even", [("n", "int")], "bool", [if_(bin_("==", get("n"), lit(0)), block(ret(lit(True)))), ret(fun("odd", [bin_("-", get("n"), lit(1))], ["int"]))]),
        f("odd", [("n", "int")], "bool", [if_(bin_("==", get("n"), lit(0)), block(ret(lit(False)))), ret(fun("even", [bin_("-", get("n"), lit(1))], ["int"]))]),
        f("walk", [("n", "int"), ("c", "Cell")], "int", [decl("Cell", "mine", new("Cell")), expr(meth("mine", "set", [get("n")], ["int"])),
                                                         if_(bin_(">", get("n"), lit(0)), block(expr(fun("walk", [bin_("-", get("n"), lit(1)), get("mine")], ["int", "Cell"])))),
                                                         p("walk ", get("n"), lit(" "), meth("mine", "get"), lit(" "), meth("c", "get")),
                                                         expr(meth("c", "set", [bin_("+", meth("c", "get"), lit(100))], ["int"])), ret(meth("mine", "get"))]),
        f("gset", [("v", "int")], "int", [expr(asg("gv", get("v"))), ret(get("gv"))]),
        f("ghide", [("gv", "int")], "int", [expr(asg("gv", lit(1), "+")), ret(get("gv"))]),
    ]

    def show(*ns):
        return p("vals", *[x for n in ns for x in (lit(" "), get(n))])

    def c(n):
        return meth(n, "get")
    cases = {
        "copy-int": [decl("int", "a", lit(3)), decl("int", "b", get("a")), expr(asg("b", lit(9))), show("a", "b"), expr(inc("a")), show("a", "b")],
        "copy-string": [decl("string", "a", lit("p")), decl("string", "b", get("a")), expr(asg("b", cat(get("b"), lit("q")))), show("a", "b")],
        "copy-bool": [decl("bool", "a", lit(True)), decl("bool", "b", get("a")), expr(asg("b", lit(False))), show("a", "b")],
        "pass-int": [decl("int", "a", lit(3)), p("r ", fun("byVal", [get("a")], ["int"])), show("a")],
        "pass-string": [decl("string", "a", lit("s")), p("r ", fun("strVal", [get("a")], ["string"])), show("a")],
        "pass-bool": [decl("bool", "a", lit(True)), p("r ", fun("boolVal", [get("a")], ["bool"])), show("a")],
        "pass-member": [decl("Cell", "o", new("Cell")), p("r ", fun("byVal", [c("o")], ["int"])), p("m ", c("o"))],
        "alias": [decl("Cell", "o", new("Cell")), decl("Cell", "q", get("o")), expr(meth("q", "set", [lit(12)], ["int"])), p("m ", c("o"), lit(" "), c("q"))],
        "two-objects": [decl("Cell", "o", new("Cell")), decl("Cell", "q", new("Cell")), expr(meth("q", "set", [lit(12)], ["int"])), p("m ", c("o"), lit(" "), c("q"))],
        "pass-object": [decl("Cell", "o", new("Cell")), expr(fun("byRef", [get("o")], ["Cell"])), p("m ", c("o"))],
        "reseat": [decl("Cell", "o", new("Cell")), p("r ", fun("reseat", [get("o")], ["Cell"])), p("m ", c("o"))],
        "defaults": [decl("int", "a"), decl("string", "s"), decl("bool", "b"), show("a", "s", "b"), decl("Cell", "o", new("Cell")), p("t ", meth("o", "text"))],
        "member-init": [decl("Cell", "o", new("Cell")), expr(meth("o", "set", [lit(5)], ["int"])), expr(meth("o", "app", [lit("z")], ["string"])), p("t ", meth("o", "text")),
                        decl("Cell", "q", new("Cell")), p("t ", meth("q", "text"))],
        "hidden-param": [decl("Cell", "o", new("Cell")), p("r ", meth("o", "hide", [lit(20)], ["int"])), p("m ", c("o"))],
        "hidden-local": [decl("Cell", "o", new("Cell")), p("r ", meth("o", "local")), p("m ", c("o"))],
        "this-member": [decl("Cell", "o", new("Cell")), expr(meth("o", "setThis", [lit(20)], ["int"])), p("m ", c("o"))],
        "inherited": [decl("Sub", "o", new("Sub")), p("b ", meth("o", "both")), expr(meth("o", "set", [lit(30)], ["int"])), expr(meth("o", "setW", [lit(2)], ["int"])),
                      p("b ", meth("o", "both")), decl("Sub", "q", new("Sub")), p("b ", meth("q", "both"))],
        "default-params": [p("1 ", fun("def1", [lit(1)], ["int"])), p("2 ", fun("def1", [lit(1), lit(2)], ["int", "int"])), p("3 ", fun("def1", [lit(1)], ["int"]))],
        "default-params2": [p("0 ", fun("def2")), p("1 ", fun("def2", [lit("a")], ["string"])), p("2 ", fun("def2", [lit("a"), lit(1)], ["string", "int"])),
                            p("3 ", fun("def2", [lit("a"), lit(1), lit(False)], ["string", "int", "bool"])), p("0 ", fun("def2"))],
        "recursion": [p("f ", fun("fact", [lit(6)], ["int"]))],
        "recursion2": [p("f ", fun("fib", [lit(5)], ["int"]))],
        "mutual": [p("e ", fun("even", [lit(6)], ["int"])), p("o ", fun("odd", [lit(6)], ["int"])), p("e ", fun("even", [lit(3)], ["int"]))],
        "recursion-objects": [decl("Cell", "o", new("Cell")), p("w ", fun("walk", [lit(3), get("o")], ["int", "Cell"])), p("m ", c("o"))],
        "global": [p("g ", get("gv")), expr(asg("gv", lit(8))), p("g ", get("gv")), p("r ", fun("gset", [lit(2)], ["int"])), p("g ", get("gv"))],
        "global-hidden": [p("r ", fun("ghide", [lit(40)], ["int"])), p("g ", get("gv")), decl("int", "gv", lit(77)), expr(inc("gv")), p("l ", get("gv")),
                          p("r ", fun("gset", [lit(3)], ["int"])), p("l ", get("gv"))],
        "static": [p("s ", get("St.s")), expr(asg("St.s", lit(6))), p("s ", get("St.s")), expr(asg("St.s", lit(4), "+")), p("s ", get("St.s")),
                   decl("int", "l", get("St.s")), expr(asg("St.s", lit(1))), p("l ", get("l"), lit(" "), get("St.s"), lit(" "), get("St.t"))],
        "namespace-var": [p("n ", get("Ns.n")), expr(asg("Ns.n", lit(6))), p("n ", get("Ns.n")), p("gn ", get("gn"))],
        "loop-fresh": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(3)), expr(inc("i")), block(decl("int", "x"), decl("string", "t"), expr(asg("x", get("i"), "+")),
                                                                                              expr(asg("t", cat(get("t"), lit("*")))), show("i", "x", "t")))],
        "loop-twice": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(show("i"))),
                       for_(decl("int", "i", lit(5)), bin_("<", get("i"), lit(7)), expr(inc("i")), block(show("i")))],
        "loop-object": [decl("Cell", "last", new("Cell")), for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(3)), expr(inc("i")),
                                                                block(decl("Cell", "x", new("Cell")), p("x ", c("x"), lit(" last "), c("last")),
                                                                      expr(meth("x", "set", [bin_("*", get("i"), lit(10))], ["int"])), expr(asg("last", get("x")))))],
        "assign-chain": [decl("int", "a", lit(1)), decl("int", "b", lit(2)), expr(asg("a", asg("b", lit(7)))), show("a", "b"), expr(inc("a")), show("a", "b")],
        "swap": [decl("int", "a", lit(1)), decl("int", "b", lit(2)), decl("int", "t", get("a")), expr(asg("a", get("b"))), expr(asg("b", get("t"))), show("a", "b")],
        "swap-objects": [decl("Cell", "a", new("Cell")), decl("Cell", "b", new("Cell")), expr(meth("b", "set", [lit(9)], ["int"])), decl("Cell", "t", get("a")),
                         expr(asg("a", get("b"))), expr(asg("b", get("t"))), p("m ", c("a"), lit(" "), c("b"))],
        "result-copy": [decl("Cell", "o", new("Cell")), decl("int", "v", c("o")), expr(meth("o", "set", [lit(99)], ["int"])), show("v")],
    }
    pre = "public object St {\n\tpublic static int s = 5;\n\tpublic static int t = 11;\n}\npublic namespace Ns {\n\tpublic int n = 2;\n}\n"
    gl = [("gv", "int", 4), ("gn", "int", 21), ("St.s", "int", 5), ("St.t", "int", 11), ("Ns.n", "int", 2)]
    for n, st in cases.items():
        yield "var-%s/main" % n, program([cell, sub], funcs, st + [ret(lit(0))], gl, pre=pre)
        t = method("t", [], "int", st + [ret(lit(1))], mods="modify throws", vis="private")
        yield "var-%s/twice" % n, program([cell, sub], funcs + [t], [p("t ", fun("t")), p("t ", fun("t")), ret(lit(0))], gl, pre=pre)


def statics():
    """static members and methods: one variable per class, whoever uses it and however its name is written"""
    bodies = {
        "read": [ret(get("K.s"))],
        "write": [expr(asg("K.s", get("a"))), ret(get("K.s"))],
        "add": [expr(asg("K.s", get("a"), "+")), ret(get("K.s"))],
        "inc": [expr(inc("K.s")), ret(bin_("+", get("K.s"), get("a")))],
        "call": [ret(stat("K", "bump", [get("a")], ["int"]))],
        "call2": [expr(stat("K", "bump", [lit(2)], ["int"])), ret(bin_("*", stat("K", "twice", [get("a")], ["int"]), get("K.t")))],
        "local": [decl("int", "s", get("a")), expr(inc("s")), ret(bin_("+", get("s"), get("K.s")))],
        "param": [expr(asg("a", get("K.s"), "+")), expr(asg("K.s", get("a"))), ret(get("a"))],
        "member": [expr(asg("m", get("K.s"), "+")), expr(asg("K.s", get("m"))), ret(get("m"))],
        "nested": [for_(decl("int", "i", lit(0)), bin_("<", get("i"), lit(2)), expr(inc("i")), block(decl("int", "b", get("K.s")), expr(asg("K.s", bin_("+", get("b"), get("a")))))), ret(get("K.s"))],
    }
    for n, body in bodies.items():
        for style in ("long", "short"):
            if style == "short" and n == "local":
                continue
            for where in ("method", "static", "derived", "ctor"):
                if where == "static" and n == "member":
                    continue
                m = lambda nm, b, st=False: method(nm, [("a", "int")], "int", b, mods="modify throws", vis="public static" if st else "public")
                ms = [method("bump", [("x", "int")], "int", [expr(asg("K.s", get("x"), "+")), ret(get("K.s"))], mods="modify throws", vis="public static"),
                      method("twice", [("x", "int")], "int", [ret(bin_("*", stat("K", "bump", [get("x")], ["int"]), lit(2)))], mods="modify throws", vis="public static"),
                      method("Constructor", [("a", "int")], "void", [expr(asg("m", get("a")))] + (body[:-1] + [p("in ctor ", body[-1]["e"])] if where == "ctor" else []), mods="")]
                if where in ("method", "static"):
                    ms.append(m("go", body, where == "static"))
                elif where == "ctor":
                    ms.append(m("go", [ret(get("m"))]))
                k = cls("K", [("m", "int", None, "protected")], ms)
                k["statics"] = [("s", "int", 5), ("t", "int", 3)]
                d = cls("D", [], [method("Constructor", [("a", "int")], "void", [expr(base("Constructor", [get("a")], ["int"]))], mods="")]
                        + ([m("go", body)] if where == "derived" else []), base="K")
                if style == "short":
                    k["short"] = d["short"] = {"K.s": "s", "K.t": "t", "K.bump": "bump", "K.twice": "twice"}
                st = []
                show = p("s ", get("K.s"), " t ", get("K.t"))
                for i, c in enumerate(("K", "D", "K") if where != "derived" else ("D", "D")):
                    v = "o%d" % i
                    st += [decl(c, v, new(c, [lit(10 + i)], ["int"])), show]
                    for j in (1, 2):
                        call = stat("K", "go", [lit(j)], ["int"]) if where == "static" else meth(v, "go", [lit(j)], ["int"])
                        st += [p("go ", call), show]
                    st += [expr(asg("K.s", lit(7 * i))), show]
                yield "static-%s/%s/%s" % (n, style, where), program([k, d], [], st + [ret(lit(0))], [("K.s", "int", 5), ("K.t", "int", 3)])


def meth_self(n, args=(), at=()):
    return self_(n, args, at)


# ------------------------------------------------------------------ L01: receivers and arguments

def eval_order():
    """calls, constructions and assignments whose parts announce themselves, at every place an expression can stand"""
    def t(n, v=1):
        return fun("ti", [lit(n), lit(v)], ["string", "int"])

    def ts(n):
        return fun("ts", [lit(n), lit(n)], ["string", "string"])

    def mk(n):
        return fun("mk", [ts(n)], ["string"])

    three = ["int", "int", "int"]
    ints = {
        "args": fun("f3", [t("a"), t("b", 2), t("c", 3)], three),
        "args-nested": fun("f3", [fun("f3", [t("a"), t("b"), t("c")], three), t("d"), fun("f3", [t("e"), t("f"), t("g")], three)], three),
        "default1": fun("fd", [t("a"), t("b")], ["int", "int"]),
        "default2": fun("fd", [t("a")], ["int"]),
        "method": meth("o", "add", [t("a", 5)], ["int"]),
        "method2": bin_("+", meth("o", "add", [t("a", 5)], ["int"]), meth("o", "add", [t("b", 7)], ["int"])),
        "receiver": meth(mk("x"), "add", [t("a", 5)], ["int"]),
        "chain": meth(meth(mk("x"), "make", [ts("y")], ["string"]), "add", [t("a", 5)], ["int"]),
        "chain3": meth(meth(meth(mk("x"), "make", [ts("y")], ["string"]), "make", [ts("z")], ["string"]), "add", [t("a", 3)], ["int"]),
        "new": fun("show", [new("R", [ts("n"), t("v", 4)], R_AT)], ["R"]),
        "new-nested": fun("show2", [new("R", [ts("n"), t("v", 4)], R_AT), new("R", [ts("m"), t("w", 6)], R_AT)], ["R", "R"]),
        "arg-changes": fun("f3", [get("x"), asg("x", t("a", 9)), get("x")], three),
        "arg-inc": fun("f3", [inc("x"), get("x"), inc("x", "-")], three),
        "op-changes": bin_("-", get("x"), asg("x", t("a", 9))),
        "op-changes2": bin_("-", asg("x", t("a", 9)), get("x")),
        "op-compound": bin_("-", asg("x", t("a", 9), "+"), asg("x", t("b", 2), "*")),
        "op-call": bin_("*", fun("chg", [], []), get("g")),
        "op-call2": bin_("*", get("g"), fun("chg", [], [])),
        "tern": tern(bin_("==", t("c"), lit(1)), fun("f3", [t("a"), t("b"), t("d")], three), t("e")),
        "tern-else": tern(bin_("==", t("c"), lit(2)), fun("f3", [t("a"), t("b"), t("d")], three), t("e")),
        "and-arg": tern(and_(bin_("==", t("a"), lit(1)), or_(bin_("==", t("b"), lit(2)), bin_("==", t("c"), lit(1)))), t("y"), t("n")),
        "member": asg(("q", "v"), t("a", 8)),
        "member-compound": asg(("q", "v"), bin_("+", t("a", 8), meth("o", "value")), "+"),
        "compound-self": asg("x", asg("x", t("a", 3), "+"), "*"),
        "asg-chain": asg("x", asg("y", asg(("q", "v"), t("a", 3)))),
    }
    funcs = obj_funcs() + tracers() + [
        method("f3", [("a", "int"), ("b", "int"), ("c", "int")], "int",
               [p("f3 ", get("a"), lit(" "), get("b"), lit(" "), get("c")),
                ret(bin_("+", bin_("*", get("a"), lit(7)), bin_("+", bin_("*", get("b"), lit(5)), bin_("*", get("c"), lit(3)))))], mods="modify", vis="private"),
        method("fd", [("a", "int"), ("b", "int", lit(4)), ("c", "int", lit(6))], "int",
               [p("fd ", get("a"), lit(" "), get("b"), lit(" "), get("c")), ret(get("b"))], mods="modify", vis="private"),
        method("show2", [("r", "R"), ("s", "R")], "int", [p("two ", meth("r", "name"), meth("s", "name")), ret(meth("s", "value"))],
               mods="modify throws", vis="private"),
        method("chg", [], "int", [p("chg"), expr(asg("g", bin_("+", get("g"), lit(10)))), ret(lit(3))], mods="modify", vis="private"),
    ]

    def prog(body, r):
        pre = [decl("int", "x", lit(5)), decl("int", "y", lit(6)), decl("R", "o", newr("o", 2)),
               decl("Box", "q", new("Box", [], []))]
        post = [p("x ", get("x"), lit(" "), get("y"), lit(" "), meth("o", "value"), lit(" "), get("q", "v"), lit(" "), get("g"))]
        f = method("run", [], "int", pre + body + post + ([ret(lit(0))] if r else []), mods="modify throws", vis="private")
        return program([class_r(), cls("Box", [("v", "int", 3, "public")])], funcs + [f], [p("r ", fun("run", [], [])), ret(lit(0))], globals_=[("g", "int", 2)])

    for n, e in ints.items():
        yield "order-init-" + n, prog([decl("int", "v", e), p("v ", get("v"))], True)
        yield "order-print-" + n, prog([print_(cat(lit("v "), e))], True)
        yield "order-arg-" + n, prog([p("v ", fun("f3", [t("h"), e, t("i")], three))], True)
        yield "order-ret-" + n, prog([if_(bin_("==", get("x"), lit(5)), block(ret(e)))], True)
        yield "order-cond-" + n, prog([if_(bin_("<", e, t("z", 50)), block(p("yes")), block(p("no")))], True)
        yield "order-switch-" + n, prog([switch(e, [(lit(15), block(p("one"), break_()))], block(p("other"), break_()))], True)
        yield "order-operand-" + n, prog([p("v ", bin_("-", t("l", 3), bin_("+", e, t("r", 2))))], True)
        yield "order-receiver-" + n, prog([p("v ", meth(meth(mk("q"), "make", [cat(lit(""), e)], ["string"]), "add", [e], ["int"]))], True)
