"""Families about generic classes (L07).

A program with generic classes is run as it is; the specification runs the program with every generic class
written out by hand for its type arguments (lang.expand)."""
import itertools

from families import p
from gen import cat
from lang import *

ATOMS = ["int", "string", "bool"]
TYPES = ATOMS + ["O", "P"]


def text(e):
    return cast("string", e)


def value(t, i):
    """the i-th value of a type"""
    return {"int": lit([5, -3, 40][i % 3]), "string": lit(["ab", "", "x"][i % 3]), "bool": lit([True, False, True][i % 3]),
            "O": new("O", [lit(10 + i)], ["int"]), "P": new("P", [lit(20 + i)], ["int"])}[t]


def objects():
    """O <- P, both convertible to string"""
    return [
        cls("O", [("mN", "int", None, "protected")], [
            method("Constructor", [("n", "int", lit(1))], "void", [expr(asg("mN", get("n")))], mods=""),
            method("show", [], "string", [ret(cat(lit("O"), get("mN")))], mods="const"),
            method("up", [], "void", [expr(asg("mN", bin_("+", get("mN"), lit(1))))], mods="modify"),
            method("=operator", [("none", "string")], "string", [ret(cat(lit("<O"), get("mN"), ">"))], mods="const")]),
        cls("P", [], [
            method("Constructor", [("n", "int", lit(2))], "void", [expr(asg("mN", get("n")))], mods=""),
            method("show", [], "string", [ret(cat(lit("P"), get("mN")))], mods="const"),
            method("=operator", [("none", "string")], "string", [ret(cat(lit("<P"), get("mN"), ">"))], mods="const")], base="O"),
    ]


def box(extra=(), dtor=False, generic=("T",)):
    ms = [method("Constructor", [("v", "T")], "void", [expr(asg("mV", get("v")))], mods=""),
          method("get", [], "T", [ret(get("mV"))], mods="const"),
          method("set", [("v", "T")], "void", [expr(asg("mV", get("v")))], mods="modify"),
          method("show", [], "string", [ret(cat(lit("["), text(get("mV")), "]"))], mods="const")]
    if dtor:
        ms.append(method("Destructor", [], "void", [p("gone ", text(get("mV")))], mods=""))
    return cls("Box", [("mV", "T", None, "protected")], ms + list(extra), generic=list(generic))


def box_of(t):
    return "Box<%s>" % t


def mkbox(t, e):
    return new(box_of(t), [e], [t])


def pair(extra=()):
    return cls("Pair", [("k", "K", None, "public"), ("v", "V", None, "public")], [
        method("Constructor", [("a", "K"), ("b", "V")], "void", [expr(asg("k", get("a"))), expr(asg("v", get("b")))], mods=""),
        method("show", [], "string", [ret(cat(lit("("), text(get("k")), ";", text(get("v")), ")"))], mods="const"),
        method("flip", [], "Pair<V,K>", [ret(new("Pair<V,K>", [get("v"), get("k")], ["V", "K"]))], mods="modify"),
        method("left", [], "Box<K>", [ret(new("Box<K>", [get("k")], ["K"]))], mods="modify"),
        method("right", [], "Box<V>", [decl("Box<V>", "r", new("Box<V>", [get("v")], ["V"])), ret(get("r"))], mods="modify"),
        method("both", [], "Pair<K,K>", [ret(new("Pair<K,K>", [get("k"), get("k")], ["K", "K"]))], mods="modify"),
    ] + list(extra), generic=["K", "V"])


def prog(classes, main, funcs=(), globals_=()):
    pr = program(classes, funcs, main + [ret(lit(0))], globals_)
    pr["late_globals"] = True
    return pr


def basics():
    for t in TYPES:
        b = box_of(t)
        extra = [
            method("swap", [("o", b.replace(t, "T"))], "void", [
                decl("T", "old", get("mV")), expr(asg("mV", meth("o", "get"))), expr(meth("o", "set", [get("old")], ["T"]))], mods="modify"),
            method("twin", [], "Box<T>", [ret(new("Box<T>", [get("mV")], ["T"]))], mods="modify"),
            method("me", [], "Box<T>", [ret(this)], mods="modify"),
            method("local", [], "string", [decl("T", "x"), decl("T", "y", get("mV")), expr(asg("x", get("y"))),
                                           ret(cat(lit("l"), text(get("x"))))], mods="const"),
            method("f", [("x", "T")], "string", [ret(cat(lit("f(T) "), text(get("x"))))], mods="const"),
            method("f", [("x", "Box<T>")], "string", [ret(cat(lit("f(Box) "), meth("x", "show")))], mods="const"),
            method("f", [("x", "T"), ("n", "int")], "string", [ret(cat(lit("f(T,int) "), text(get("x")), get("n")))], mods="const"),
            method("d", [("x", "T"), ("n", "int", lit(4)), ("w", "string", lit("w"))], "string",
                   [ret(cat(lit("d "), text(get("x")), get("n"), get("w")))], mods="const"),
            method("pick", [("c", "bool"), ("x", "T"), ("y", "T")], "T", [if_(get("c"), block(ret(get("x")))), ret(get("y"))], mods="const"),
            method("tid", [], "string", [ret(typeid(get("mV")))], mods="const"),
        ]
        main = [
            decl(b, "a", mkbox(t, value(t, 0))), decl(b, "c", mkbox(t, value(t, 1))),
            p("a ", meth("a", "show")), p("c ", meth("c", "show")),
            expr(meth("a", "swap", [get("c")], [b])), p("a ", meth("a", "show")), p("c ", meth("c", "show")),
            decl(b, "w", meth("a", "twin")), expr(meth("w", "set", [value(t, 2)], [t])),
            p("w ", meth("w", "show")), p("a ", meth("a", "show")),
            decl(b, "same", meth("a", "me")), expr(meth("same", "set", [value(t, 2)], [t])), p("a ", meth("a", "show")),
            p("chain ", meth(meth(meth("c", "twin"), "twin"), "show")),
            p("local ", meth("a", "local")),
            p("f ", meth("a", "f", [value(t, 1)], [t])), p("f ", meth("a", "f", [get("c")], [b])),
            p("f ", meth("a", "f", [value(t, 1), lit(7)], [t, "int"])),
            p("d ", meth("a", "d", [value(t, 0)], [t])), p("d ", meth("a", "d", [value(t, 0), lit(8)], [t, "int"])),
            p("d ", meth("a", "d", [value(t, 0), lit(8), lit("v")], [t, "int", "string"])),
            p("pick ", text(meth("a", "pick", [lit(True), value(t, 0), value(t, 1)], ["bool", t, t]))),
            p("pick ", text(meth("a", "pick", [lit(False), value(t, 0), value(t, 1)], ["bool", t, t]))),
            p("tid ", meth("a", "tid")), p("type ", typeid(get("a"))),
            decl(b, "none"), p("null ", tern(get("none"), lit("set"), lit("unset"))),
            expr(asg("none", get("c"))), p("null ", tern(get("none"), lit("set"), lit("unset"))), p("none ", meth("none", "show")),
            expr(asg("glob", get("c"))), expr(meth("glob", "set", [value(t, 0)], [t])), p("c ", meth("c", "show")),
            p("fn ", fun("fn", [get("c")], [b])), decl(b, "made", fun("make", [value(t, 1)], [t])), p("made ", meth("made", "show")),
        ]
        funcs = [method("fn", [("x", b)], "string", [expr(meth("x", "set", [value(t, 1)], [t])), ret(meth("x", "show"))], vis="private"),
                 method("make", [("x", t)], b, [ret(mkbox(t, get("x")))], vis="private")]
        yield "box/" + t, prog(objects() + [box(extra)], main, funcs, [("glob", b, None)])
        # the life of instances
        b2 = [decl(b, "a", mkbox(t, value(t, 0))), block(decl(b, "c", mkbox(t, value(t, 1))), p("in")), p("after"),
              expr(asg("a", mkbox(t, value(t, 2)))), p("replaced")]
        yield "life/" + t, prog(objects() + [box(dtor=True)], b2)


def two_boxes():
    """instances for different arguments do not influence each other, and are told apart"""
    for s, t in itertools.permutations(TYPES, 2):
        bs, bt = box_of(s), box_of(t)
        main = [decl(bs, "a", mkbox(s, value(s, 0))), decl(bt, "b", mkbox(t, value(t, 0))),
                expr(meth("a", "set", [value(s, 1)], [s])), p("a ", meth("a", "show")), p("b ", meth("b", "show")),
                expr(meth("b", "set", [value(t, 2)], [t])), p("a ", meth("a", "show")), p("b ", meth("b", "show")),
                p("over ", fun("over", [get("a")], [bs])), p("over ", fun("over", [get("b")], [bt])),
                p("is ", is_(get("a"), bs)), p("is ", is_(get("b"), bs)), p("is ", is_(get("a"), bt)), p("ids ", typeid(get("a")), typeid(get("b")))]
        funcs = [method("over", [("x", bs)], "string", [ret(cat(lit("over s "), meth("x", "show")))], vis="private"),
                 method("over", [("x", bt)], "string", [ret(cat(lit("over t "), meth("x", "show")))], vis="private")]
        yield "two/%s-%s" % (s, t), prog(objects() + [box()], main, funcs, [("g1", bs, None), ("g2", bt, None)])
        # exceptions of generic type
        for order in ((bs, bt), (bt, bs), (bs,), (bt, ""), ("",), (bt, s, bs)):
            st = []
            for what, e in (("s", mkbox(s, value(s, 0))), ("t", mkbox(t, value(t, 1)))):
                cs = [(c, "e%d" % i if c else "", block(p("caught %s" % (c or "any"), *([meth("e%d" % i, "show")] if "<" in c else []))))
                      for i, c in enumerate(order)]
                st.append(try_(block(try_(block(p("throw " + what), throw(e)), cs), p("on " + what)),
                               [("", "", block(p("outer " + what)))]))
            yield "throw/%s-%s/%s" % (s, t, "-".join(order)), prog(objects() + [box()], st)


def pairs():
    for k, v in itertools.product(TYPES, TYPES):
        t = "Pair<%s,%s>" % (k, v)
        f = "Pair<%s,%s>" % (v, k)
        kk = "Pair<%s,%s>" % (k, k)
        extra = [method("f", [("x", "K"), ("y", "V"), ("n", "int", lit(3))], "string", [ret(cat(lit("f "), text(get("x")), text(get("y")), get("n")))], mods="const"),
                 method("other", [("o", "Pair<V,K>")], "void", [expr(asg("k", get("o", "v"))), expr(asg("v", get("o", "k")))], mods="modify")]
        main = [decl(t, "a", new(t, [value(k, 0), value(v, 1)], [k, v])), p("a ", meth("a", "show")),
                decl(f, "b", meth("a", "flip")), p("b ", meth("b", "show")),
                expr(asg(["b", "k"], value(v, 2))), p("b ", meth("b", "show")), p("a ", meth("a", "show")),
                decl(box_of(k), "l", meth("a", "left")), decl(box_of(v), "r", meth("a", "right")),
                p("l ", meth("l", "show")), p("r ", meth("r", "show")),
                expr(meth("l", "set", [get("b", "v")], [k])), expr(meth("r", "set", [get("b", "k")], [v])),
                p("l ", meth("l", "show")), p("r ", meth("r", "show")),
                p("bf ", meth(meth("b", "flip"), "show")), p("both ", meth(meth("a", "both"), "show")),
                decl(kk, "q", meth("a", "both")), expr(asg(["q", "v"], value(k, 1))), p("q ", meth("q", "show")),
                p("f ", meth("a", "f", [value(k, 1), value(v, 0)], [k, v])), p("f ", meth("a", "f", [value(k, 1), value(v, 0), lit(9)], [k, v, "int"])),
                expr(meth("a", "other", [get("b")], [f])), p("a ", meth("a", "show")),
                p("ids ", typeid(get("a")), typeid(get("b")), typeid(get("l")), typeid(get("q"))),
                p("path ", text(get("a", "k")), text(get("b", "k")))]
        yield "pair/%s-%s" % (k, v), prog(objects() + [box(), pair(extra)], main)


def members():
    """generic members of generic and ordinary classes"""
    for t in TYPES:
        for mt, args in (("Box<T>", [t]), ("Box<int>", ["int"]), ("Box<string>", ["string"]), ("Box<O>", ["O"])):
            a = args[0]
            at = "T" if mt == "Box<T>" else a
            h = cls("H", [("own", "T", None, "public"), ("m", mt, None, "public")], [
                method("Constructor", [("x", "T"), ("y", at)], "void",
                       [expr(asg("own", get("x"))), expr(asg("m", new(mt, [get("y")], [at])))], mods=""),
                method("inner", [], at, [ret(meth("m", "get"))], mods="const"),
                method("give", [], mt, [ret(get("m"))], mods="const"),
                method("take", [("x", mt)], "void", [expr(asg("m", get("x")))], mods="modify"),
                method("put", [("x", at)], "void", [expr(meth("m", "set", [get("x")], [at]))], mods="modify")], generic=["T"])
            ht, bt = "H<%s>" % t, box_of(a)
            main = [decl(ht, "h", new(ht, [value(t, 0), value(a, 1)], [t, a])), decl(ht, "g", new(ht, [value(t, 1), value(a, 2)], [t, a])),
                    p("h ", text(get("h", "own")), meth(["h", "m"], "show")), p("in ", text(meth("h", "inner"))),
                    expr(meth("h", "put", [value(a, 0)], [a])), p("h ", meth(["h", "m"], "show")), p("g ", meth(["g", "m"], "show")),
                    decl(bt, "b", meth("g", "give")), expr(meth("b", "set", [value(a, 0)], [a])), p("g ", meth(["g", "m"], "show")),
                    expr(meth("h", "take", [get("b")], [bt])), expr(meth(["h", "m"], "set", [value(a, 1)], [a])), p("g ", meth(["g", "m"], "show")),
                    p("give ", meth(meth("h", "give"), "show")), p("ids ", typeid(get("h")), typeid(get("h", "m")))]
            yield "member/%s/%s" % (t, mt), prog(objects() + [box(), h], main)
        # pairs with one argument fixed, and ordinary classes
        h = cls("H", [("x", "Pair<int,T>", None, "public"), ("y", "Pair<T,string>", None, "public"), ("z", "Pair<T,T>", None, "public")], [
            method("Constructor", [("v", "T")], "void", [
                expr(asg("x", new("Pair<int,T>", [lit(7), get("v")], ["int", "T"]))),
                expr(asg("y", new("Pair<T,string>", [get("v"), lit("s")], ["T", "string"]))),
                expr(asg("z", new("Pair<T,T>", [get("v"), get("v")], ["T", "T"])))], mods=""),
            method("sum", [], "int", [ret(bin_("+", get("x", "k"), lit(1)))], mods="const"),
            method("word", [], "string", [ret(cat(get("y", "v"), "!"))], mods="const")], generic=["T"])
        ht = "H<%s>" % t
        main = [decl(ht, "h", new(ht, [value(t, 0)], [t])), p("sum ", meth("h", "sum")), p("word ", meth("h", "word")),
                p("x ", meth(["h", "x"], "show")), p("y ", meth(["h", "y"], "show")), p("z ", meth(["h", "z"], "show")),
                expr(asg(["h", "z", "k"], value(t, 1))), p("z ", meth(["h", "z"], "show")), p("y ", meth(["h", "y"], "show")),
                expr(asg(["h", "x", "k"], lit(100))), p("sum ", meth("h", "sum")), p("f ", meth(meth(["h", "y"], "flip"), "show"))]
        yield "member-pair/%s" % t, prog(objects() + [box(), pair(), h], main)
        u = cls("U", [("b", box_of(t), None, "public"), ("q", "Pair<%s,int>" % t, None, "public")], [
            method("Constructor", [("v", t)], "void", [expr(asg("b", mkbox(t, get("v")))),
                                                     expr(asg("q", new("Pair<%s,int>" % t, [get("v"), lit(3)], [t, "int"])))], mods=""),
            method("get", [], t, [ret(meth("b", "get"))], mods="const"),
            method("box", [], box_of(t), [ret(get("b"))], mods="const")])
        main = [decl("U", "u", new("U", [value(t, 0)], [t])), p("u ", meth(["u", "b"], "show")), p("q ", meth(["u", "q"], "show")),
                p("get ", text(meth("u", "get"))), expr(meth(["u", "b"], "set", [value(t, 1)], [t])), p("u ", meth(meth("u", "box"), "show"))]
        yield "member-plain/%s" % t, prog(objects() + [box(), pair(), u], main)


def triples():
    """three type variables, all permutations of them in members, parameters, results and locals"""
    perms = list(itertools.permutations(["A", "B", "C"]))
    fld = {"A": "a", "B": "b", "C": "c"}
    for args in itertools.permutations(TYPES, 3):
        m = dict(zip("ABC", args))
        ms = [method("Constructor", [("x", "A"), ("y", "B"), ("z", "C")], "void",
                     [expr(asg("a", get("x"))), expr(asg("b", get("y"))), expr(asg("c", get("z")))], mods=""),
              method("show", [], "string", [ret(cat(lit("("), text(get("a")), ";", text(get("b")), ";", text(get("c")), ")"))], mods="const")]
        main = [decl("Tri<%s>" % ",".join(args), "t", new("Tri<%s>" % ",".join(args), [value(x, i) for i, x in enumerate(args)], list(args)))]
        for q in perms:
            ty, n = "Tri<%s>" % ",".join(q), "".join(q)
            ms.append(method("to" + n, [], ty, [decl(ty, "r", new(ty, [get(fld[x]) for x in q], list(q))), ret(get("r"))], mods="modify"))
            ms.append(method("from" + n, [("o", ty)], "void", [expr(asg(fld[x], get("o", f))) for x, f in zip(q, "abc")], mods="modify"))
            ct, v = "Tri<%s>" % ",".join(m[x] for x in q), "v" + n
            main += [decl(ct, v, meth("t", "to" + n)), p(n + " ", meth(v, "show")), expr(asg([v, "b"], value(m[q[1]], 2))),
                     expr(meth("t", "from" + n, [get(v)], [ct])), p("t ", meth("t", "show")), p("id ", typeid(get(v)))]
        tri = cls("Tri", [("a", "A", None, "public"), ("b", "B", None, "public"), ("c", "C", None, "public")], ms, generic=["A", "B", "C"])
        yield "tri/" + "-".join(args), prog(objects() + [tri], main)


def lists():
    for t in TYPES:
        n = "Node<%s>" % t
        node = cls("Node", [("v", "T", None, "public"), ("next", "Node<T>", None, "public")], [
            method("Constructor", [("x", "T")], "void", [expr(asg("v", get("x")))], mods=""),
            method("append", [("x", "T")], "void", [
                if_(get("next"), block(expr(meth("next", "append", [get("x")], ["T"])), ret())),
                expr(asg("next", new("Node<T>", [get("x")], ["T"])))], mods="modify"),
            method("all", [], "string", [
                if_(get("next"), block(ret(cat(text(get("v")), ",", meth("next", "all"))))), ret(text(get("v")))], mods="const"),
            method("size", [], "int", [decl("int", "n", lit(1)), decl("Node<T>", "c", get("next")),
                                       while_(get("c"), block(expr(inc("n")), expr(asg("c", get("c", "next"))))), ret(get("n"))], mods="const"),
            method("at", [("i", "int")], "T", [
                if_(bin_("==", get("i"), lit(0)), block(ret(get("v")))),
                if_(un("!", get("next")), block(throw(lit("range")))),
                ret(meth("next", "at", [bin_("-", get("i"), lit(1))], ["int"]))], mods="const throws"),
            method("reversed", [], "Node<T>", [
                decl("Node<T>", "r", new("Node<T>", [get("v")], ["T"])), decl("Node<T>", "c", get("next")),
                while_(get("c"), block(decl("Node<T>", "h", new("Node<T>", [get("c", "v")], ["T"])),
                                       expr(asg(["h", "next"], get("r"))), expr(asg("r", get("h"))), expr(asg("c", get("c", "next"))))),
                ret(get("r"))], mods="modify"),
            method("Destructor", [], "void", [p("free ", text(get("v")))], mods="")], generic=["T"])
        main = [decl(n, "a", new(n, [value(t, 0)], [t])), expr(meth("a", "append", [value(t, 1)], [t])), expr(meth("a", "append", [value(t, 2)], [t])),
                p("all ", meth("a", "all")), p("size ", meth("a", "size")), p("at ", text(meth("a", "at", [lit(1)], ["int"]))),
                try_(block(p("at ", text(meth("a", "at", [lit(3)], ["int"])))), [("string", "e", block(p("caught ", get("e"))))]),
                decl(n, "r", meth("a", "reversed")), p("rev ", meth("r", "all")),
                expr(asg(["r", "v"], value(t, 1))), p("rev ", meth("r", "all")), p("all ", meth("a", "all")), p("end")]
        yield "list/" + t, prog(objects() + [node], main)


def inherit():
    """ordinary classes extending an instance"""
    for t in TYPES:
        b = box_of(t)
        for over in (True, False):
            s = cls("S", [("n", "int")], [
                method("Constructor", [("v", t), ("k", "int")], "void", [expr(base("Constructor", [get("v")], [t])), expr(asg("n", get("k")))], mods=""),
                method("more", [], "string", [ret(cat(text(self_("get")), ":", get("n")))], mods="const")] + ([
                    method("show", [], "string", [ret(cat(lit("S"), text(get("mV")), get("n")))], mods="const"),
                    method("set", [("v", t)], "void", [expr(inc("n")), expr(base("set", [get("v")], [t]))], mods="modify")] if over else []),
                base=b)
            main = [decl("S", "s", new("S", [value(t, 0), lit(4)], [t, "int"])), p("s ", meth("s", "show")), p("more ", meth("s", "more")),
                    decl(b, "u", fun("up", [get("s")], ["S"])),
                    expr(meth("u", "set", [value(t, 1)], [t])), p("u ", meth("u", "show")), p("s ", meth("s", "show")), p("more ", meth("s", "more")),
                    p("tw ", text(meth("u", "get"))), p("ids ", typeid(get("u")), typeid(get("s"))), p("is ", is_(get("u"), "S")), p("is ", is_(get("s"), b)),
                    decl(b, "x", mkbox(t, value(t, 2))), expr(asg("x", get("u"))), p("x ", meth("x", "show"))]
            funcs = [method("up", [("x", "S")], b, [ret(cast(b, get("x"), "plain"))], vis="private")]
            yield "extend/%s/%s" % (t, over), prog(objects() + [box(), s], main, funcs, [("g1", b, None)])


def uses_of_t():
    """places in which a type variable can stand inside the class"""
    isa = cls("Isa", [], [method("f", [("o", "O")], "bool", [ret(is_(get("o"), "T"))], mods="const")], generic=["T"])
    fac = cls("Fac", [], [method("make", [], "T", [ret(new("T"))], mods="const"),
                          method("made", [("n", "int")], "T", [decl("T", "r", new("T", [get("n")], ["int"])), expr(meth("r", "up")), ret(get("r"))], mods="const")],
              generic=["T"])
    for t in ("O", "P"):
        main = [decl("Isa<%s>" % t, "i", new("Isa<%s>" % t)), decl("Fac<%s>" % t, "f", new("Fac<%s>" % t)),
                p("is ", meth("i", "f", [new("O")], ["O"])), p("is ", meth("i", "f", [cast("O", new("P"), "plain")], ["O"])),
                p("mk ", meth(meth("f", "make"), "show")), p("mk ", meth(meth("f", "made", [lit(30)], ["int"]), "show")),
                decl(t, "x", meth("f", "make")), expr(meth("x", "up")), p("x ", meth("x", "show")), p("id ", typeid(meth("f", "make")))]
        yield "t-object/" + t, prog(objects() + [isa, fac], main)
        # a bound on the argument
        bound = cls("Bound", [("v", "T", None, "public")], [
            method("Constructor", [("x", "T")], "void", [expr(asg("v", get("x")))], mods=""),
            method("say", [], "string", [ret(cat(lit("say "), meth("v", "show")))], mods="const"),
            method("grow", [], "void", [expr(meth("v", "up"))], mods="modify")], generic=["T:O"])
        b = "Bound<%s>" % t
        main = [decl(b, "b", new(b, [value(t, 0)], [t])), p("b ", meth("b", "say")), expr(meth("b", "grow")), p("b ", meth("b", "say")),
                decl(t, "o", get("b", "v")), expr(meth("o", "up")), p("b ", meth("b", "say"))]
        if t == "O":
            main += [expr(asg(["b", "v"], cast("O", value("P", 0), "plain"))), p("b ", meth("b", "say"))]
        yield "bound/" + t, prog(objects() + [bound], main)
    conv = cls("Conv", [], [method("a", [("s", "string")], "T", [ret(cast("T", get("s")))], mods="const"),
                            method("b", [("s", "string")], "T", [decl("T", "r", cast("T", get("s"), "plain")), ret(get("r"))], mods="const"),
                            method("e", [("x", "T"), ("y", "T")], "bool", [ret(bin_("==", get("x"), get("y"), "T"))], mods="const"),
                            method("t", [("x", "T")], "void", [throw(get("x"))], mods="const throws"),
                            method("c", [("x", "T")], "string", [
                                try_(block(throw(get("x"))), [("T", "e", block(ret(cat(lit("c "), text(get("e"))))))]), ret(lit("no"))], mods="const throws"),
                            method("s", [("x", "T"), ("y", "T")], "string", [
                                decl("T", "z", get("x")), expr(asg("x", get("y"))), expr(asg("y", get("z"))), ret(cat(text(get("x")), "/", text(get("y"))))],
                                mods="const")], generic=["T"])
    for t in ATOMS:
        c = "Conv<%s>" % t
        txt = {"int": ["12", "7"], "string": ["12", "z"], "bool": ["true", "false"]}[t]
        main = [decl(c, "c", new(c))]
        for x in txt:
            main += [p("a ", text(meth("c", "a", [lit(x)], ["string"]))), p("b ", text(meth("c", "b", [lit(x)], ["string"])))]
        for i, j in ((0, 0), (0, 1)):
            main += [p("e ", meth("c", "e", [value(t, i), value(t, j)], [t, t])), p("s ", meth("c", "s", [value(t, i), value(t, j)], [t, t]))]
        main += [p("c ", meth("c", "c", [value(t, 0)], [t])),
                 try_(block(expr(meth("c", "t", [value(t, 1)], [t]))), [(x, "e" + x, block(p("as %s " % x, text(get("e" + x))))) for x in ATOMS])]
        yield "t-atomic/" + t, prog([conv], main)
    # operators of generic classes
    ops = [method("operator+", [("o", "Box<T>")], "Box<T>", [ret(new("Box<T>", [bin_("+", get("mV"), meth("o", "get"), "T")], ["T"]))], mods="const"),
           method("operator+", [("o", "T")], "Box<T>", [ret(new("Box<T>", [bin_("+", get("o"), get("mV"), "T")], ["T"]))], mods="const"),
           method("operator==", [("o", "Box<T>")], "bool", [ret(bin_("==", get("mV"), meth("o", "get"), "T"))], mods="const"),
           method("operator[]", [("i", "int")], "T", [ret(get("mV"))], mods="const"),
           method("=operator", [("none", "string")], "string", [ret(cat(lit("Box:"), text(get("mV"))))], mods="const")]
    for t in ("int", "string"):
        b = box_of(t)
        main = [decl(b, "a", mkbox(t, value(t, 0))), decl(b, "c", mkbox(t, value(t, 2))), decl(b, "s", opm("a", "+", get("c"), b)),
                p("s ", meth("s", "show")), expr(asg("s", opm("s", "+", value(t, 0), t))), p("s ", meth("s", "show")),
                p("eq ", opm("a", "==", get("c"), b)), p("eq ", opm("a", "==", get("a"), b)), p("ne ", ne("a", get("c"), b)),
                p("sub ", opm("s", "[]", lit(1), "int")), p("str ", text(get("s"))),
                expr(cmp_asg("a", "+", get("c"), b)), p("a ", meth("a", "show")),
                p("id ", typeid(opm("a", "+", get("c"), b)))]
        yield "operators/" + t, prog([box(ops)], main)


def parameter_only():
    """a generic type that is named in the signature of a function or method before it is used anywhere else"""
    f = method("f", [("x", "Box<int>")], "string", [ret(meth("x", "show"))], vis="private")
    yield "function-parameter", prog(objects() + [box()], [p("f ", fun("f", [mkbox("int", lit(4))], ["Box<int>"]))], [f])
    for t in TYPES:
        b, u = box_of(t), "O" if t == "P" else "P"
        fs = [method("f", [("x", b)], "string", [ret(meth("x", "show"))]),
              method("mk", [("x", t)], b, [ret(mkbox(t, get("x")))]),
              method("never", [("x", box_of(u))], box_of(u), [ret(get("x"))])]
        for order, funcs in (("use-first", fs), ("make-first", [fs[1], fs[0], fs[2]]), ("never-first", [fs[2], fs[0], fs[1]])):
            yield "signature/%s/%s" % (order, t), prog(objects() + [box()], [
                p("f ", fun("f", [mkbox(t, value(t, 0))], [b])), p("mk ", meth(fun("mk", [value(t, 1)], [t]), "show")),
                p("f ", fun("f", [fun("mk", [value(t, 2)], [t])], [b]))], funcs)
        own = cls("Own", [("mT", "string", None, "public")], [
            method("Constructor", [("x", b)], "void", [expr(asg("mT", meth("x", "show")))], mods=""),
            method("take", [("x", b)], "string", [ret(cat(lit("take "), meth("x", "show")))], mods="const"),
            method("give", [("x", t)], b, [ret(mkbox(t, get("x")))], mods="const")])
        yield "signature/method/" + t, prog(objects() + [own, box()], [
            decl("Own", "o", new("Own", [mkbox(t, value(t, 0))], [b])), p("own ", get("o", "mT")),
            p("give ", meth("o", "take", [meth("o", "give", [value(t, 1)], [t])], [b]))])
    for s, t in itertools.permutations(TYPES, 2):
        fs = [method("f", [("x", box_of(u))], "string", [ret(cat(lit(u + " "), meth("x", "show")))]) for u in (s, t)]
        yield "signature/overload/%s/%s" % (s, t), prog(objects() + [box()], [
            p("f ", fun("f", [mkbox(u, value(u, 0))], [box_of(u)])) for u in (s, t)], fs)


class Random:
    """random generic classes with random members, used with random arguments"""

    def __init__(self, rng):
        self.rng = rng

    def program(self):
        r = self.rng
        self.classes = []          # (name, variables, fields [(name, type)])
        res = []
        for i in range(r.randint(1, 3)):
            vs = ["T", "U"][:r.randint(1, 2)]
            n = "G%d" % i
            fs = [("f%d" % j, self.field_type(n, vs, j)) for j in range(r.randint(1, 3))]
            self.classes.append((n, vs, fs))
            res.append(self.cls(n, vs, fs))
        main = []
        for i in range(r.randint(2, 3)):
            n, vs, fs = r.choice(self.classes)
            t = "%s<%s>" % (n, ",".join(r.choice(TYPES) for _ in vs))
            main += self.exercise(t, "v%d" % i)
        return prog(objects() + res, main)

    def field_type(self, own, vs, j):
        r = self.rng
        x = r.random()
        if x < 0.45 or not self.classes:
            return r.choice(vs)
        if x < 0.6:
            return r.choice(["int", "string"])
        n, ovs, fs = r.choice(self.classes)
        if sum(self.size(ty) for _, ty in fs) > 5:
            return r.choice(vs)
        return "%s<%s>" % (n, ",".join(r.choice(vs + ["int", "string", "O"]) for _ in ovs))

    def size(self, ty):
        """number of values an object of the type is made of"""
        x = type_args(ty)
        return sum(self.size(f) for _, f in next(c for c in self.classes if c[0] == x[0])[2]) if x else 1

    def subst(self, ty, m):
        x = type_args(ty)
        return "%s<%s>" % (x[0], ",".join(m.get(a, a) for a in x[1])) if x else m.get(ty, ty)

    def fields(self, t):
        g, a = type_args(t)
        n, vs, fs = next(c for c in self.classes if c[0] == g)
        m = dict(zip(vs, a))
        return [(f, self.subst(ty, m)) for f, ty in fs]

    def cls(self, n, vs, fs):
        r = self.rng
        own = "%s<%s>" % (n, ",".join(vs))
        ms = [method("Constructor", [("x%d" % j, ty) for j, (f, ty) in enumerate(fs)], "void",
                     [expr(asg(f, get("x%d" % j))) for j, (f, _) in enumerate(fs)], mods="")]
        parts = []
        for f, ty in fs:
            parts += [" ", text(get(f)) if "<" not in ty else meth(f, "show")]
        ms.append(method("show", [], "string", [ret(cat(lit(n + "("), *parts, ")"))], mods="const"))
        for f, ty in fs:
            ms.append(method("get_" + f, [], ty, [ret(get(f))], mods="const"))
            ms.append(method("set_" + f, [("x", ty)], "void", [expr(asg(f, get("x")))], mods="modify"))
        ms.append(method("twin", [], own, [ret(new(own, [get(f) for f, _ in fs], [ty for _, ty in fs]))], mods="modify"))
        if len(vs) == 2 and all("<" not in ty for _, ty in fs) and r.random() < 0.7:
            # the same class with its variables exchanged
            ex = "%s<U,T>" % n
            m = {"T": "U", "U": "T"}
            byt = {}
            for f, ty in fs:
                byt.setdefault(ty, f)
            if all(self.subst(ty, m) in byt for _, ty in fs):
                ms.append(method("flip", [], ex, [ret(new(ex, [get(byt[self.subst(ty, m)]) for _, ty in fs], [self.subst(ty, m) for _, ty in fs]))], mods="modify"))
                self.flips = getattr(self, "flips", set()) | {n}
        return cls(n, [(f, ty, None, "public") for f, ty in fs], ms, generic=vs)

    def make(self, ty):
        if "<" in ty:
            fs = self.fields(ty)
            return new(ty, [self.make(t) for _, t in fs], [t for _, t in fs])
        return value(ty, self.rng.randint(0, 2))

    def exercise(self, t, v):
        r = self.rng
        fs = self.fields(t)
        st = [decl(t, v, self.make(t)), p(v + " ", meth(v, "show")), p("id ", typeid(get(v)))]
        for _ in range(r.randint(2, 4)):
            f, ty = r.choice(fs)
            x = r.random()
            if x < 0.3:
                st.append(expr(meth(v, "set_" + f, [self.make(ty)], [ty])))
            elif x < 0.5:
                st.append(expr(asg([v, f], self.make(ty))))
            elif x < 0.7:
                e = meth(v, "get_" + f)
                st.append(p("g ", text(e) if "<" not in ty else meth(e, "show")))
            elif x < 0.85:
                st.append(block(decl(t, "w", meth(v, "twin")), expr(meth("w", "set_" + f, [self.make(ty)], [ty])), p("w ", meth("w", "show")), p("id ", typeid(get("w", f)))))
            else:
                st.append(p("p ", text(get(v, f)) if "<" not in ty else meth([v, f], "show")))
            if type_args(t)[0] in getattr(self, "flips", ()) and r.random() < 0.5:
                st.append(p("flip ", meth(meth(v, "flip"), "show")))
        st.append(p(v + " ", meth(v, "show")))
        return st
