"""Families about method selection (L06): hierarchies, overriding, overloading, interfaces, operators, casts."""
import itertools

from families import catch, p
from gen import cat
from lang import *

CH = ["A", "B", "C"]


def upto(c, chain=CH):
    """classes a reference to an object of class c may have as static type"""
    return chain[:chain.index(c) + 1]


def mk(c, s=None, args=(), at=()):
    n = new(c, list(args), list(at))
    return n if s in (None, c) else cast(s, n, "plain")


def field_methods(first):
    r = [method("tag", [], "string", [ret(get("mTag"))], mods="const")] if first else []
    return r


def ctor(c, base_=None):
    b = [expr(base("Constructor", [get("t")], ["string"]))] if base_ else [expr(asg("mTag", get("t")))]
    return method("Constructor", [("t", "string")], "void", b, mods="")


def hier(extra, chain=CH, absfirst=False, ifaces=()):
    """A <- B <- C, every object carries the tag given to its constructor; extra: class -> methods"""
    res = []
    for i, c in enumerate(chain):
        ms = [ctor(c, i > 0)]
        if i == 0:
            ms += [method("tag", [], "string", [ret(get("mTag"))], mods="const"),
                   method("setTag", [("t", "string")], "void", [expr(asg("mTag", get("t")))], mods="modify")]
        ms += extra.get(c, [])
        res.append(cls(c, [("mTag", "string", None, "protected")] if i == 0 else [], ms, base=chain[i - 1] if i else None,
                       mods="abstract" if absfirst and i == 0 else "", ifaces=ifaces if i == 0 else ()))
    return res


def calls(dyn, statics, name, args, at, tag):
    """statements: an object of class dyn is called through all static types, held in different ways"""
    st = [decl(dyn, "o", new(dyn, [lit(tag)], ["string"]))]
    for s in statics:
        v = "r" + s
        if s != dyn:
            st.append(decl(s, v, cast(s, get("o"), "plain")))
        else:
            st.append(decl(s, v, get("o")))
        st.append(p("%s as %s: " % (dyn, s), meth(v, name, args, at)))
        st.append(p("%s arg %s: " % (dyn, s), fun("via" + s, [get(v)], [s])))
        st.append(p("%s res %s: " % (dyn, s), meth(fun("same" + s, [get(v)], [s]), name, args, at)))
        st.append(expr(asg("h" + s, get(v))))
        st.append(p("%s glob %s: " % (dyn, s), meth("h" + s, name, args, at)))
        if s != dyn:
            st.append(p("%s down: " % dyn, meth(fun("same" + dyn, [cast(dyn, get(v), "plain")], [dyn]), name, args, at)))
    return block(*st)


def helpers(statics, name, args, at):
    r = []
    for s in statics:
        r.append(method("via" + s, [("x", s)], "string", [ret(meth("x", name, args, at))], mods="modify throws", vis="private"))
        r.append(method("same" + s, [("x", s)], s, [ret(get("x"))], mods="modify throws", vis="private"))
    return r


BODY = {
    "plain": lambda c, up: [ret(cat(lit(c + ".f "), get("mTag")))],
    "base": lambda c, up: [ret(cat(lit(c + "("), base("f"), ")"))] if up else [ret(cat(lit(c + ".f "), get("mTag")))],
    "self": lambda c, up: [ret(cat(lit(c + ".f "), self_("tag")))],
    "modify": lambda c, up: [expr(asg("mTag", cat(get("mTag"), c))), ret(get("mTag"))],
    "basemod": lambda c, up: ([expr(base("f"))] if up else []) + [expr(self_("setTag", [cat(get("mTag"), c)], ["string"])), ret(self_("tag"))],
    "throw": lambda c, up: [if_(bin_("==", get("mTag"), lit("zz")), block(throw(lit(c)))), ret(lit(c + " fine"))],
}


def overriding():
    """which classes of the chain define f x what f does x abstract or interface roots"""
    for root in ("concrete", "abstract", "interface"):
        for d in itertools.product((True, False), repeat=3):
            defs = [c for c, x in zip(CH, d) if x]
            if not defs or (root == "concrete" and "A" not in defs) or (root == "abstract" and "A" in defs):
                continue
            for b in BODY:
                extra = {}
                for c in defs:
                    up = bool([x for x in defs if CH.index(x) < CH.index(c)])
                    extra[c] = [method("f", [], "string", BODY[b](c, up), mods="modify throws")]
                if root == "abstract":
                    # every class without an implementation is abstract, too
                    extra["A"] = [method("f", [], "string", ["abstract"], mods="modify throws", vis="public abstract")]
                chain = hier(extra, absfirst=root != "concrete" and "A" not in defs)
                first = CH.index(defs[0]) if root != "concrete" else 0
                live = CH[first:]
                if root != "concrete":
                    for c in chain[:first]:
                        c["mods"] = "abstract"
                statics = CH if root != "interface" else CH[first:]
                if root == "interface":
                    # the class that implements the interface is the first one that defines f
                    chain[first]["ifaces"] = ["I"]
                    chain.insert(0, cls("I", [], [method("f", [], "string", ["abstract"], mods="modify throws")], mods="interface"))
                    statics = ["I"] + statics
                main = []
                for dyn in live:
                    main.append(calls(dyn, [s for s in statics if s == "I" or s in upto(dyn)], "f", [], [], "t" + dyn))
                main.append(ret(lit(0)))
                pr = program(chain, helpers(statics, "f", [], []), main, [("h" + s, s, None) for s in statics])
                pr["late_globals"] = True
                yield "override-%s/%s/%s" % (root, "".join(defs), b), pr


OV = {"int": lit(4), "string": lit("s"), "bool": lit(True)}


def overloading():
    """every subset of three overloads in every class of the chain, every argument type through every static type"""
    subsets = [s for n in range(4) for s in itertools.combinations(OV, n)]
    for combo in itertools.product(subsets, repeat=3):
        extra = {}
        for c, s in zip(CH, combo):
            extra[c] = [method("g", [("x", t)], "string", [ret(cat(lit("%s.g(%s) " % (c, t)), get("x")))], mods="const") for t in s]
        main = []
        for dyn in CH:
            st = [decl(dyn, "o", new(dyn, [lit("t")], ["string"]))]
            for s in upto(dyn):
                known = set(sum([list(combo[CH.index(x)]) for x in upto(s)], []))
                if not known:
                    continue
                st.append(decl(s, "r" + s, get("o") if s == dyn else cast(s, get("o"), "plain")))
                for t in sorted(known):
                    st.append(p("%s as %s: " % (dyn, s), meth("r" + s, "g", [OV[t]], [t])))
            main.append(block(*st))
        if not any(combo):
            continue
        yield "overload-" + "/".join("".join(x[0] for x in s) for s in combo), program(hier(extra), [], main + [ret(lit(0))])


def params_and_defaults():
    """overloads by number and type of parameters, default values that differ along the chain, object parameters"""
    sets = {
        "count": {"A": [("g", [], "g0"), ("g", [("x", "int")], "g1"), ("g", [("x", "int"), ("y", "int")], "g2")],
                  "B": [("g", [("x", "int")], "g1")], "C": [("g", [("x", "int"), ("y", "int")], "g2"), ("g", [], "g0")]},
        "order": {"A": [("g", [("x", "int"), ("y", "string")], "is"), ("g", [("x", "string"), ("y", "int")], "si")],
                  "B": [("g", [("x", "string"), ("y", "int")], "si")], "C": [("g", [("x", "int"), ("y", "string")], "is")]},
        "objs": {"A": [("g", [("x", "A")], "A"), ("g", [("x", "B")], "B")], "B": [("g", [("x", "C")], "C"), ("g", [("x", "A")], "A")],
                 "C": [("g", [("x", "B")], "B")]},
        "defaults": {"A": [("g", [("x", "int", lit(1))], "d1")], "B": [], "C": [("g", [("x", "int", lit(7))], "d7")]},
        "defaults2": {"A": [("g", [("x", "int"), ("y", "int", lit(2))], "a")], "B": [("g", [("x", "int"), ("y", "int", lit(5))], "b")],
                      "C": [("g", [("x", "string"), ("y", "int", lit(8))], "c")]},
        "mixed": {"A": [("g", [("x", "int")], "i"), ("g", [("x", "bool")], "b")], "B": [("g", [("x", "string")], "s")],
                  "C": [("g", [("x", "A")], "o"), ("g", [("x", "bool"), ("y", "bool")], "bb")]},
    }
    vals = {"int": lit(4), "string": lit("s"), "bool": lit(True), "A": cast("A", get("c"), "plain"), "B": cast("B", get("c"), "plain"), "C": get("c")}
    for sn, ms in sets.items():
        extra = {}
        for c in CH:
            extra[c] = []
            for n, ps, t in ms[c]:
                body = [ret(cat(lit("%s.%s" % (c, t)), *[get(x[0]) if x[1] in OV else meth(x[0], "tag") for x in ps]))]
                extra[c].append(method(n, ps, "string", body, mods="const"))
        main = [decl("C", "c", new("C", [lit("cc")], ["string"]))]
        for dyn in CH:
            st = [decl(dyn, "o", new(dyn, [lit("t")], ["string"]))]
            for s in upto(dyn):
                sigs = set()
                for x in upto(s):
                    for n, ps, t in ms[x]:
                        req = [y[1] for y in ps if len(y) < 3]
                        full = [y[1] for y in ps]
                        for k in range(len(req), len(full) + 1):
                            sigs.add(tuple(full[:k]))
                st.append(decl(s, "r" + s, get("o") if s == dyn else cast(s, get("o"), "plain")))
                for sg in sorted(sigs):
                    st.append(p("%s as %s %s: " % (dyn, s, ",".join(sg)), meth("r" + s, "g", [vals[t] for t in sg], list(sg))))
            main.append(block(*st))
        yield "params-" + sn, program(hier(extra), [], main + [ret(lit(0))])
    # constructors are selected the same way
    cs = [cls("K", [("mS", "string")], [
        method("Constructor", [], "void", [expr(asg("mS", lit("none")))], mods=""),
        method("Constructor", [("x", "int")], "void", [expr(asg("mS", cat(lit("int"), get("x"))))], mods=""),
        method("Constructor", [("x", "string")], "void", [expr(asg("mS", cat(lit("string"), get("x"))))], mods=""),
        method("Constructor", [("x", "int"), ("y", "string")], "void", [expr(asg("mS", cat(lit("int,string"), get("x"), get("y"))))], mods=""),
        method("Constructor", [("x", "K")], "void", [expr(asg("mS", cat(lit("K:"), meth("x", "s"))))], mods=""),
        method("s", [], "string", [ret(get("mS"))], mods="const")]),
        cls("L", [("mT", "string")], [
            method("Constructor", [("x", "int")], "void", [expr(base("Constructor", [lit("up")], ["string"])), expr(asg("mT", cat(lit("L"), get("x"))))], mods=""),
            method("Constructor", [("x", "bool")], "void", [expr(base("Constructor", [lit(1), lit("two")], ["int", "string"])), expr(asg("mT", cat(lit("Lb"), get("x"))))], mods=""),
            method("t", [], "string", [ret(get("mT"))], mods="const")], base="K"),
        cls("M", [], [method("hello", [], "string", [ret(lit("hello"))], mods="const")], base="K")]
    main = []
    for c, args, at in [("K", [], []), ("K", [lit(1)], ["int"]), ("K", [lit("a")], ["string"]), ("K", [lit(2), lit("b")], ["int", "string"]),
                        ("K", [new("K", [lit(3)], ["int"])], ["K"]), ("L", [lit(5)], ["int"]), ("L", [lit(True)], ["bool"])]:
        b = [decl(c, "o", new(c, args, at)), p(c + " ", meth("o", "s"))]
        if c == "L":
            b.append(p("t ", meth("o", "t")))
        main.append(block(*b))
    yield "params-ctor", program(cs, [], main + [ret(lit(0))])


OPS = [("+", "V"), ("-", "V"), ("*", "int"), ("/", "int"), ("%", "int"), ("==", "V"), ("<", "V"), (">", "V"), ("<=", "V"), (">=", "V"), ("==", "int"), ("+", "string")]


def op_class(name, ops, base_=None, unary=True, casts=("string", "int", "bool")):
    ms = []
    if base_ is None:
        ms = [method("Constructor", [("x", "int")], "void", [expr(asg("v", get("x")))], mods=""),
              method("num", [], "int", [ret(get("v"))], mods="const")]
    else:
        ms = [method("Constructor", [("x", "int")], "void", [expr(base("Constructor", [get("x")], ["int"]))], mods="")]
    for op, rt in ops:
        arg = get("o") if rt == "int" else meth("o", "num")
        say = print_(cat(lit("%s %s %s " % (name, op, rt)), get("v"), ",", get("o") if rt == "string" else arg))
        if op in ("==", "<", ">", "<=", ">="):
            ms.append(method("operator" + op, [("o", rt, None, "const")] if rt == "V" else [("o", rt)], "bool", [say, ret(bin_(op, get("v"), arg))], mods="const"))
        elif rt == "string":
            ms.append(method("operator" + op, [("o", rt)], "string", [say, ret(cat(get("o"), get("v")))], mods="const"))
        else:
            ms.append(method("operator" + op, [("o", rt, None, "const")] if rt == "V" else [("o", rt)], "V",
                             [say, ret(new("V", [bin_(op, get("v"), arg)], ["int"]))], mods="const"))
    if unary:
        ms.append(method("operator++", [], "void", [print_(lit(name + " ++")), expr(asg("v", lit(1), "+"))], mods="modify"))
        ms.append(method("operator--", [], "void", [print_(lit(name + " --")), expr(asg("v", lit(1), "-"))], mods="modify"))
        ms.append(method("operator[]", [("i", "int")], "int", [print_(cat(lit(name + " [] "), get("i"))), ret(bin_("+", get("v"), get("i")))], mods="const"))
        ms.append(method("operator=", [("i", "int")], "void", [print_(cat(lit(name + " = "), get("i"))), expr(asg("v", get("i")))], mods="modify"))
    for c in casts:
        e = {"string": cat(lit(name + ":"), get("v")), "int": bin_("+", get("v"), lit(100)), "bool": bin_(">", get("v"), lit(3))}[c]
        ms.append(method("=operator", [("none", c)], c, [print_(lit("%s as %s" % (name, c))), ret(e)], mods="const"))
    return cls(name, [("v", "int", None, "protected")] if base_ is None else [], ms, base=base_)


def operators():
    """operators, casts and subscripts of objects: on variables, members, results; overridden or inherited"""
    mkv = method("mk", [("i", "int")], "V", [p("mk ", get("i")), ret(new("V", [get("i")], ["int"]))], mods="modify throws", vis="private")
    mkw = method("mkw", [("i", "int")], "V", [p("mkw ", get("i")), ret(cast("V", new("W", [get("i")], ["int"]), "plain"))], mods="modify throws", vis="private")
    box = cls("Box", [("a", "V", None, "public")], [method("Constructor", [("v", "V")], "void", [expr(asg("a", get("v")))], mods=""),
                                                    method("get", [], "V", [ret(get("a"))], mods="const")])

    crate = cls("Crate", [("b", "Box", None, "public")], [method("Constructor", [("v", "Box")], "void", [expr(asg("b", get("v")))], mods="")])

    def arg(rt, i):
        return {"V": fun("mk", [lit(i)], ["int"]), "int": lit(i), "string": lit("s%d" % i)}[rt]

    def show(e, op, rt, tag):
        if op in ("==", "<", ">", "<=", ">="):
            return p(tag + " ", tern(e, lit("yes"), lit("no")))
        if rt == "string":
            return p(tag + " ", e)
        return block(decl("V", "z", e), p(tag + " ", meth("z", "num")))
    recv = {
        "var": ([decl("V", "x", new("V", [lit(7)], ["int"]))], "x"),
        "derived": ([decl("V", "x", cast("V", new("W", [lit(7)], ["int"]), "plain"))], "x"),
        "own": ([decl("W", "x", new("W", [lit(7)], ["int"]))], "x"),
        "deep": ([decl("Crate", "k", new("Crate", [new("Box", [new("V", [lit(7)], ["int"])], ["V"])], ["Box"]))], ("k", "b", "a")),
        "member": ([decl("Box", "b", new("Box", [new("V", [lit(7)], ["int"])], ["V"]))], ("b", "a")),
        "result": ([], fun("mk", [lit(7)], ["int"])),
        "wresult": ([], fun("mkw", [lit(7)], ["int"])),
        "chain": ([decl("Box", "b", new("Box", [cast("V", new("W", [lit(7)], ["int"]), "plain")], ["V"]))], meth("b", "get")),
    }
    for wops in ("none", "all", "some"):
        w = op_class("W", {"none": [], "all": OPS, "some": [o for i, o in enumerate(OPS) if i % 2]}[wops], base_="V", unary=wops == "all",
                     casts={"none": (), "all": ("string", "int", "bool"), "some": ("int",)}[wops])
        classes = [op_class("V", OPS), w, box, crate]
        for rn, (pre, r) in recv.items():
            # operators are looked up in the static type while the program is checked: inherited ones are not found there
            for part in range(3) if rn != "own" or wops == "all" else ():
                main = list(pre)
                for op, rt in OPS[part::3]:
                    for i in (2, 7, 9):
                        main.append(show(opm(r, op, arg(rt, i), rt), op, rt, op + rt))
                        if op == "==":
                            main.append(show(ne(r, arg(rt, i), rt), op, rt, "!=" + rt))
                            if rt == "V":
                                main.append(show(ne(r, arg(rt, i), rt, "!=="), op, rt, "!==" + rt))
                                main.append(show(dict(opm(r, op, arg(rt, i), rt), sugar="==="), op, rt, "===" + rt))
                yield "op-bin%d/%s/%s" % (part, wops, rn), program(classes, [mkv, mkw], main + [ret(lit(0))])
            if rn in ("member", "deep", "var"):
                # the same on members of the object whose method runs
                own = cls("Own", [("x", "V"), ("b", "Box"), ("k", "Crate"), ("other", "V")], [
                    method("prepare", [], "void", [expr(asg(s["n"], s["e"])) for s in pre] + [expr(asg("other", new("V", [lit(2)], ["int"])))], mods="modify"),
                    method("go", [], "void", [show(opm(r, op, get("other") if rt == "V" else arg(rt, 2), rt), op, rt, op + rt) for op, rt in OPS], mods="modify throws")])
                yield "op-own/%s/%s" % (wops, rn), program(classes + [own], [], [decl("Own", "o", new("Own")), expr(meth("o", "prepare")), expr(meth("o", "go")), ret(lit(0))])
            main = list(pre)
            if isinstance(r, (str, tuple)):
                for op in ("++", "--", "++"):
                    main += [expr(opm(r, op)), p("now ", meth(r, "num"))]
                if rn != "own":
                    for op, rt in (("+", "V"), ("-", "V"), ("*", "int"), ("%", "int")):
                        for i in (3, 2):
                            main += [expr(cmp_asg(r, op, arg(rt, i), rt)), p("now ", meth(r, "num"), " ", typeid(get(*([r] if isinstance(r, str) else r))))]
                main += [expr(opm(r, "=", lit(4))), p("now ", meth(r, "num"))]
                main += [p("sub ", opm(r, "[]", lit(3))), decl("int", "s", bin_("+", opm(r, "[]", lit(1)), opm(r, "[]", opm(r, "[]", lit(2))))), p("s ", get("s"))]
                rd = get(*([r] if isinstance(r, str) else r))
            else:
                rd = r
            for c in ("string", "int", "bool"):
                main += [decl(c, "c" + c, cast(c, rd, "plain" if rd["k"] == "get" else "cast")), p(c + " ", get("c" + c))]
            yield "op-unary/%s/%s" % (wops, rn), program(classes, [mkv, mkw], main + [ret(lit(0))])
        # longer expressions: the result of one operator is the receiver of the next
        x, y = get("x"), get("y")
        pre = [decl("V", "x", new("V", [lit(7)], ["int"])), decl("V", "y", cast("V", new("W", [lit(3)], ["int"]), "plain"))]
        for i, (a, b) in enumerate(itertools.product(["+", "-", "*", "/", "%"], repeat=2)):
            ta, tb = ("V" if o in "+-" else "int" for o in (a, b))
            e1 = opm(opm("x", a, y if ta == "V" else lit(2), ta), b, x if tb == "V" else lit(2), tb)
            e2 = opm("x", a, opm("y", b, x if tb == "V" else lit(2), tb), "V") if ta == "V" else None
            e3 = opm(e1, "==", opm(opm("x", a, y if ta == "V" else lit(2), ta), b, y if tb == "V" else lit(2), tb), "V")
            main = pre + [block(decl("V", "z", e1), p("z ", meth("z", "num"))), p("cmp ", tern(e3, lit("yes"), lit("no")))]
            if e2:
                main.append(block(decl("V", "z", e2), p("z ", meth("z", "num"))))
            yield "op-long/%s/%d" % (wops, i), program(classes, [mkv, mkw], main + [ret(lit(0))])


def conversions():
    """is, typeid and casts for every dynamic class, static type and target in a tree of classes"""
    tree = {"A": None, "B": "A", "C": "B", "D": "A", "E": "D"}

    def anc(c):
        return [c] + (anc(tree[c]) if tree[c] else [])
    classes = []
    for c, b in tree.items():
        ms = [ctor(c, b), method("who", [], "string", [ret(cat(lit(c + " "), get("mTag")))], mods="const")]
        if not b:
            ms.append(method("setTag", [("t", "string")], "void", [expr(asg("mTag", get("t")))], mods="modify"))
        classes.append(cls(c, [] if b else [("mTag", "string", None, "protected")], ms, base=b))
    for dyn in tree:
        for s in anc(dyn):
            pre = [decl(s, "x", mk(dyn, s, [lit("t")], ["string"])), p("x ", typeid(get("x")), " ", meth("x", "who"))]
            yield "is/%s/%s" % (dyn, s), program(classes, [], pre + [p(t + " ", is_(get("x"), t)) for t in tree] + [ret(lit(0))])
            for t in tree:
                if t == s or not (t in anc(s) or s in anc(t)):
                    continue
                yield "cast/%s/%s/%s" % (dyn, s, t), program(classes, [], pre + [
                    decl(t, "y", cast(t, get("x"), "plain")), p("y ", typeid(get("y")), " ", meth("y", "who")),
                    expr(meth("y", "setTag", [lit("new")], ["string"])), p("x ", meth("x", "who")), ret(lit(0))])


def reassigning():
    """a variable of a base type refers to objects of different classes one after the other"""
    tree = {"A": None, "B": "A", "C": "B", "D": "A"}

    def anc(c):
        return [c] + (anc(tree[c]) if tree[c] else [])
    for s in ("A", "B"):
        dyn = [c for c in tree if s in anc(c)]
        classes = []
        for c, b in tree.items():
            ms = [ctor(c, b), method("who", [], "string", [ret(cat(lit(c + " "), get("mTag")))], mods="const"),
                  method("Destructor", [], "void", [p("D " + c + " ", get("mTag"))], mods="")]
            classes.append(cls(c, [] if b else [("mTag", "string", None, "protected")], ms, base=b))
        classes.append(cls("Box", [("m", s, None, "public")], [
            method("set", [("x", s)], "void", [expr(asg("m", get("x")))], mods="modify"),
            method("get", [], s, [ret(get("m"))], mods="const")]))
        fs = [method("swap", [("x", s, None, "ref"), ("y", s)], "void", [expr(asg("x", get("y"))), p("in ", meth("x", "who"))], mods="modify throws", vis="private")]
        for seq in itertools.product(dyn, repeat=3):
            objs = [mk(c, s, [lit(str(i))], ["string"]) for i, c in enumerate(seq)]
            name = s + "".join(seq)
            main = [decl(s, "x", objs[0]), p("x ", meth("x", "who"))]
            for o in objs[1:]:
                main += [expr(asg("x", o)), p("x ", meth("x", "who"), " ", typeid(get("x")))]
            yield "assign-var/" + name, program(classes, [], main + [ret(lit(0))])
            main = [decl("Box", "b", new("Box"))]
            for i, o in enumerate(objs):
                main += [expr(meth("b", "set", [o], [s])) if i != 1 else expr(asg(["b", "m"], o)), p("m ", meth(("b", "m"), "who"), meth(meth("b", "get"), "who"))]
            yield "assign-member/" + name, program(classes, [], main + [ret(lit(0))])
            main = []
            for i, o in enumerate(objs):
                main += [expr(asg("g", o)), p("g ", meth("g", "who"))]
            pr = program(classes, [], main + [delete("g"), ret(lit(0))], [("g", s, None)])
            pr["late_globals"] = True
            yield "assign-global/" + name, pr
            main = [decl(s, "x", objs[0]), decl(s, "y", objs[1]), decl(s, "z", get("x")), expr(asg("x", get("y"))), p("x ", meth("x", "who"), meth("z", "who")),
                    expr(asg("y", get("z"))), p("y ", meth("y", "who")), expr(asg("x", objs[2])), p("x ", meth("x", "who"), typeid(get("x"))),
                    decl(seq[2], "d", get("x") if seq[2] == s else cast(seq[2], get("x"), "plain")), p("d ", meth("d", "who")), ret(lit(0))]
            yield "assign-swap/" + name, program(classes, [], main)


def escapes():
    """an inherited method hands out its own object"""
    ways = {
        "return": ("A", [ret(this)], "me"),
        "pass": ("string", [ret(fun("viaA", [this], ["A"]))], None),
        "store": ("string", [expr(asg("g", this)), ret(lit("stored"))], None),
        "local": ("string", [decl("A", "l", this), ret(meth("l", "f"))], None),
        "other": ("string", [decl("Keep", "k", new("Keep", [this], ["A"])), ret(meth(meth("k", "get"), "f"))], None),
        "throw": ("string", [throw(this)], None),
        "typeid": ("string", [ret(typeid(this))], None),
        "is": ("string", [ret(cat(lit(""), is_(this, "A"), is_(this, "B"), is_(this, "C")))], None),
        "modify": ("string", [expr(self_("setTag", [lit("mod")], ["string"])), decl("A", "l", this), ret(cat(meth("l", "tag"), meth("l", "f")))], None),
        "chain": ("string", [ret(fun("viaA", [self_("again")], ["A"]))], None),
    }
    keep = cls("Keep", [("mA", "A")], [method("Constructor", [("a", "A")], "void", [expr(asg("mA", get("a")))], mods=""),
                                       method("get", [], "A", [ret(get("mA"))], mods="const")])
    for w, (rt, body, _) in ways.items():
        for over in itertools.product((True, False), repeat=2):
            extra = {"A": [method("f", [], "string", [ret(cat(lit("A.f "), get("mTag")))], mods="const"),
                           method("again", [], "A", [ret(this)], mods="modify throws"),
                           method("go", [], rt, body, mods="modify throws"),
                           method("Destructor", [], "void", [p("D ", get("mTag"))], mods="")]}
            for c, o in zip("BC", over):
                if o:
                    extra[c] = [method("f", [], "string", [ret(cat(lit(c + ".f "), get("mTag")))], mods="const")]
            main = []
            for dyn in CH:
                st = [decl(dyn, "o", new(dyn, [lit("t" + dyn)], ["string"]))]
                for s in upto(dyn):
                    st.append(decl(s, "r" + s, get("o") if s == dyn else cast(s, get("o"), "plain")))
                    r = "r" + s
                    if w == "return":
                        st += [decl("A", "x" + s, meth(r, "go")), p("x ", meth("x" + s, "f"), " ", typeid(get("x" + s))),
                               expr(meth("x" + s, "setTag", [lit("s" + s)], ["string"])), p("o ", meth("o", "tag")),
                               p("chain ", meth(meth(meth(r, "go"), "again"), "f"))]
                    elif w == "store":
                        st += [p("go ", meth(r, "go")), p("g ", meth("g", "f")), expr(meth("g", "setTag", [lit("g" + s)], ["string"])), p("o ", meth("o", "tag"))]
                    elif w == "throw":
                        st += [try_(block(p("go ", meth(r, "go"))), [("A", "e" + s, block(p("caught ", meth("e" + s, "f"), typeid(get("e" + s))),
                                                                                       expr(meth("e" + s, "setTag", [lit("e" + s)], ["string"]))))]), p("o ", meth("o", "tag"))]
                    else:
                        st += [p("go ", meth(r, "go")), p("o ", meth("o", "tag"))]
                main.append(block(*st))
                main.append(p("left"))
                if w == "store":
                    main += [delete("g"), p("deleted")]
            hs = hier(extra) + [keep]
            # functions that an inherited method calls
            fs = [method("viaA", [("x", "A")], "string", [ret(meth("x", "f"))], mods="modify throws", vis="private")]
            pr = program(hs, fs, main + [ret(lit(0))], [("g", "A", None)])
            pr["late_globals"] = True
            yield "escape-%s/%s" % (w, "".join("BC"[i] for i in range(2) if over[i]) or "-"), pr
        # the temporary object stays alive while its inherited method runs
        pr = program([cls("A", [("mTag", "string", None, "protected")], [ctor("A"), method("Destructor", [], "void", [p("D ", get("mTag"))], mods=""),
                      method("go", [], "string", [delete("g"), p("dropped ", get("mTag")), ret(get("mTag"))], mods="modify throws")]),
                      cls("B", [], [ctor("B", "A")], base="A")], [],
                     [expr(asg("g", cast("A", new("B", [lit("b")], ["string"]), "plain"))), p("go ", meth("g", "go")), p("after"), ret(lit(0))], [("g", "A", None)])
        pr["late_globals"] = True
        if w == "return":
            yield "escape-drop", pr


class Hier:
    """random hierarchies and calls"""

    def __init__(self, rng):
        self.r = rng

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def program(self):
        r = self.r
        n = 2 + r.randrange(4)
        names = ["K%d" % i for i in range(n)]
        parent = {}
        for i, c in enumerate(names):
            parent[c] = names[r.randrange(i)] if i and r.random() < 0.85 else None
        types = ["int", "string", "bool"]

        def anc(c):
            return [c] + (anc(parent[c]) if parent[c] else [])
        sigs = [("m%d" % i, tuple(self.pick(types) for _ in range(r.randrange(3)))) for i in range(3)]
        sigs += [(s[0], tuple(self.pick(types) for _ in range(1 + r.randrange(2)))) for s in sigs]
        sigs = sorted(set(sigs))
        has = {c: [s for s in sigs if r.random() < (0.7 if not parent[c] else 0.4)] for c in names}
        for c in names:
            if not any(has[a] for a in anc(c)):
                has[c].append(self.pick(sigs))
        depth = {s: i for i, s in enumerate(sigs)}

        def visible(c):
            return sorted(set(sum([has[a] for a in anc(c)], [])))

        def argfor(t, sc):
            c = [v for v, vt in sc if vt == t]
            if c and r.random() < 0.6:
                return get(self.pick(c))
            return {"int": lit(r.randrange(9)), "string": lit(self.pick("pqr")), "bool": lit(r.random() < 0.5)}[t]
        classes = []
        for c in names:
            root = parent[c] is None
            ms = [method("Constructor", [("t", "string")], "void",
                         [expr(asg("mLog", get("t")))] if root else [expr(base("Constructor", [get("t")], ["string"]))], mods="")]
            if root:
                ms.append(method("log", [], "string", [ret(get("mLog"))], mods="const"))
            for s in has[c]:
                ps = [("a%d" % i, t) for i, t in enumerate(s[1])]
                body = [expr(asg("mLog", cat(get("mLog"), "." + c + s[0]), "="))]
                up = [x for x in visible(parent[c]) if True] if parent[c] else []
                # only calls to methods that come later in the list or same method of the base: no recursion
                if s in up and r.random() < 0.5:
                    body.append(decl("string", "u", base(s[0], [get(x[0]) for x in ps], list(s[1]))))
                    tail = get("u")
                else:
                    later = [x for x in visible(c) if depth[x] > depth[s]]
                    if later and r.random() < 0.5:
                        x = self.pick(later)
                        tail = self_(x[0], [argfor(t, ps) for t in x[1]], list(x[1]))
                    else:
                        tail = cat(lit("!"), *[get(x[0]) for x in ps])
                body.append(ret(cat(lit("%s.%s%d " % (c, s[0], len(s[1]))), tail)))
                ms.append(method(s[0], ps, "string", body, mods="modify throws"))
            classes.append(cls(c, [("mLog", "string", None, "protected")] if root else [], ms, base=parent[c]))
        funcs = []
        for c in names:
            funcs.append(method("id" + c, [("x", c)], c, [ret(get("x"))], mods="modify throws", vis="private"))
        main, vs = [], []
        for i in range(2 + r.randrange(4)):
            c = self.pick(names)
            s = self.pick(anc(c))
            v = "v%d" % i
            main.append(decl(s, v, mk(c, s, [lit("#%d" % i)], ["string"])))
            vs.append((v, c, s))
        for i in range(6 + r.randrange(10)):
            v, c, s = self.pick(vs)
            x = self.pick(visible(s)) if visible(s) else None
            k = r.random()
            if x is None or k < 0.1:
                main.append(p(v + " log ", meth(v, "log")))
                continue
            args = [argfor(t, []) for t in x[1]]
            if k < 0.5:
                main.append(p(v + " ", meth(v, x[0], args, list(x[1]))))
            elif k < 0.7:
                main.append(p(v + " ", meth(fun("id" + s, [get(v)], [s]), x[0], args, list(x[1]))))
            elif k < 0.85:
                # through another static type
                up = self.pick(anc(s))
                if not visible(up):
                    continue
                y = self.pick(visible(up))
                nv = "w%d" % i
                main.append(decl(up, nv, get(v) if up == s else cast(up, get(v), "plain")))
                main.append(p(nv + " ", meth(nv, y[0], [argfor(t, []) for t in y[1]], list(y[1]))))
                vs.append((nv, c, up))
            else:
                nv = "w%d" % i
                main.append(decl(c, nv, get(v) if c == s else cast(c, get(v), "plain")))
                vs.append((nv, c, c))
                main.append(p("t ", typeid(get(nv)), " ", meth(nv, "log")))
        for v, c, s in vs:
            main.append(p("end " + v + " ", meth(v, "log"), typeid(get(v))))
        return program(classes, funcs, main + [ret(lit(0))])
