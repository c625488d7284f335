"""Random well-formed programs for SlangMachine.  Every choice comes from the random generator that is handed in."""
from lang import *


def cat(*xs):
    e = xs[0]
    for x in xs[1:]:
        e = bin_("+", e, lit(x) if isinstance(x, str) else x, "string")
    return e


# ------------------------------------------------------------------ classes and functions every program may use

def class_r(throwing=False):
    """an object with a name whose life can be followed in the output"""
    body = [expr(asg("mName", get("name"))), expr(asg("mVal", get("v"))), print_(cat(lit("C "), get("mName")))]
    if throwing:
        body.append(if_(bin_("==", get("v"), lit(99)), block(throw(lit("ctor")))))
    return cls("R", [("mName", "string"), ("mVal", "int"), ("mOther", "R")], [
        method("Constructor", [("name", "string"), ("v", "int")], "void", body, mods="throws"),
        method("Destructor", [], "void", [print_(cat(lit("D "), get("mName")))], mods=""),
        method("name", [], "string", [ret(get("mName"))], mods="const"),
        method("value", [], "int", [ret(get("mVal"))], mods="const"),
        method("add", [("d", "int")], "int", [expr(asg("mVal", get("d"), "+")), ret(get("mVal"))], mods="modify"),
        method("link", [("o", "R")], "void", [expr(asg("mOther", get("o")))], mods="modify"),
        method("other", [], "R", [ret(get("mOther"))], mods="const"),
        method("Copy", [], "R", [print_(cat(lit("copy "), get("mName"))), ret(new("R", [cat(get("mName"), lit("'")), get("mVal")], ["string", "int"]))], mods="const throws"),
        method("make", [("name", "string")], "R",
               [ret(new("R", [cat(get("mName"), get("name")), get("mVal")], ["string", "int"]))], mods="modify throws"),
    ])


def exceptions():
    """a small hierarchy of classes to be thrown"""
    def e(n, base_=None):
        b = []
        if base_:
            b.append(expr(base("Constructor", [get("m")], ["string"])))
            return cls(n, [], [method("Constructor", [("m", "string")], "void", b, mods="")], base=base_)
        b = [expr(asg("mMsg", get("m")))]
        return cls(n, [("mMsg", "string", None, "protected")], [
            method("Constructor", [("m", "string")], "void", b, mods=""),
            method("Destructor", [], "void", [print_(cat(lit("D exc "), get("mMsg")))], mods=""),
            method("what", [], "string", [ret(get("mMsg"))], mods="const")])
    return [e("E0"), e("E1", "E0"), e("E2", "E1"), e("F0")]


EXC = {"E0": ["E0"], "E1": ["E1", "E0"], "E2": ["E2", "E1", "E0"], "F0": ["F0"]}


def tracers():
    """functions that announce that they are evaluated"""
    return [
        method("ti", [("s", "string"), ("v", "int")], "int", [print_(cat(lit("ti "), get("s"))), ret(get("v"))],
               mods="modify", vis="private"),
        method("tb", [("s", "string"), ("v", "bool")], "bool", [print_(cat(lit("tb "), get("s"))), ret(get("v"))],
               mods="modify", vis="private"),
        method("ts", [("s", "string"), ("v", "string")], "string", [print_(cat(lit("ts "), get("s"))), ret(get("v"))],
               mods="modify", vis="private"),
    ]


class Gen:
    """One random program.  w: weights of statement kinds, feat: set of features."""

    def __init__(self, rng, w, feat=(), size=14, depth=3, nfun=2):
        self.r = rng
        self.w = w
        self.feat = set(feat)
        self.size = size
        self.maxdepth = depth
        self.nfun = nfun
        self.cnt = 0
        self.funs = []          # (name, [types], return type)
        self.nullable = "null" in self.feat

    def fresh(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    # ---------------- expressions; sc: list of scopes (name -> type), innermost last

    def vars(self, sc, ty):
        seen, res = set(), []
        for s in reversed(sc):
            for n, t in s.items():
                if n not in seen:
                    seen.add(n)
                    if t == ty:
                        res.append(n)
        return sorted(res)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def e_int(self, sc, d):
        r = self.r
        c = r.random()
        vs = self.vars(sc, "int")
        if d <= 0 or c < 0.25:
            if vs and r.random() < 0.6:
                return get(self.pick(vs))
            return lit(r.randrange(0, 10))
        if c < 0.55:
            op = self.pick(["+", "-", "*", "+"])
            return bin_(op, self.e_int(sc, d - 1), self.e_int(sc, d - 1))
        if c < 0.6:
            return bin_(self.pick(["/", "%"]), self.e_int(sc, d - 1), lit(r.randrange(1, 5)))
        if c < 0.68:
            return tern(self.e_bool(sc, d - 1), self.e_int(sc, d - 1), self.e_int(sc, d - 1))
        if c < 0.78 and "trace" in self.feat:
            return fun("ti", [lit(self.fresh("i")), self.e_int(sc, d - 1)], ["string", "int"])
        if c < 0.88 and "obj" in self.feat:
            o = self.e_obj(sc, d - 1)
            if o["k"] == "get":
                return meth(o["p"], "value") if r.random() < 0.6 else meth(o["p"], "add", [self.e_int(sc, d - 1)], ["int"])
            if o["k"] == "call":
                return meth(o, "value")
            return fun("valueOf", [o], ["R"])
        if self.fcands("int"):
            return self.fcall(sc, d, "int")
        return un("-", self.e_int(sc, d - 1))

    def e_bool(self, sc, d):
        r = self.r
        c = r.random()
        vs = self.vars(sc, "bool")
        if d <= 0 or c < 0.15:
            if vs and r.random() < 0.6:
                return get(self.pick(vs))
            return lit(r.random() < 0.5)
        if c < 0.55:
            return bin_(self.pick(["==", "!=", "<", "<=", ">", ">="]), self.e_int(sc, d - 1), self.e_int(sc, d - 1))
        if c < 0.65:
            return un("!", self.e_bool(sc, d - 1))
        if c < 0.75 and "trace" in self.feat:
            return fun("tb", [lit(self.fresh("b")), self.e_bool(sc, d - 1)], ["string", "bool"])
        if c < 0.8 and "obj" in self.feat and not self.nullable and self.vars(sc, "R"):
            return is_(get(self.pick(self.vars(sc, "R"))), "R")
        return (and_ if r.random() < 0.5 else or_)(self.e_bool(sc, d - 1), self.e_bool(sc, d - 1))

    def e_str(self, sc, d):
        r = self.r
        c = r.random()
        vs = self.vars(sc, "string")
        if d <= 0 or c < 0.3:
            if vs and r.random() < 0.6:
                return get(self.pick(vs))
            return lit(self.pick(["a", "bc", "x y", "", "q1"]))
        if c < 0.5:
            return cat(self.e_str(sc, d - 1), self.e_int(sc, d - 1))
        if c < 0.6 and "trace" in self.feat:
            return fun("ts", [lit(self.fresh("s")), self.e_str(sc, d - 1)], ["string", "string"])
        if c < 0.7 and "obj" in self.feat and self.vars(sc, "R"):
            return meth(self.pick(self.vars(sc, "R")), "name")
        if c < 0.8:
            return tern(self.e_bool(sc, d - 1), self.e_str(sc, d - 1), self.e_str(sc, d - 1))
        return cat(self.e_str(sc, d - 1), self.e_str(sc, d - 1))

    def e_new(self, sc, d):
        n = lit(self.fresh("n"))
        iv = self.vars(sc, "int")
        name = cat(n, get(self.pick(iv))) if iv and self.r.random() < 0.4 else n
        v = self.e_int(sc, min(d, 1) - 1)
        if "ctorthrow" in self.feat and self.r.random() < 0.15:
            v = lit(99)
        return new("R", [name, v], ["string", "int"])

    def e_obj(self, sc, d):
        r = self.r
        vs = self.vars(sc, "R")
        c = r.random()
        if vs and (d <= 0 or c < 0.4):
            return get(self.pick(vs))
        if c < 0.55 and d > 0 and self.fcands("R"):
            return self.fcall(sc, d, "R")
        if c < 0.65 and vs:
            return meth(self.pick(vs), "make", [lit(self.fresh("m"))], ["string"])
        if c < 0.7 and vs and self.nullable:
            return meth(self.pick(vs), "other")
        if c < 0.78 and d > 0:
            return fun("same", [self.e_obj(sc, d - 1)], ["R"])
        if c < 0.83 and d > 0 and self.fcands("R"):
            return meth(self.fcall(sc, d - 1, "R"), "make", [lit(self.fresh("m"))], ["string"])
        return self.e_new(sc, d)

    def e_of(self, ty, sc, d):
        return {"int": self.e_int, "bool": self.e_bool, "string": self.e_str, "R": self.e_obj}[ty](sc, d)

    def fcands(self, ty):
        return [f for f in self.funs if f[2] == ty]

    def fcall(self, sc, d, ty):
        n, ts, _ = self.pick(self.fcands(ty))
        return fun(n, [self.e_of(t, sc, d - 1) for t in ts], ts)

    # ---------------- statements; ctx: dict(loop, ret, depth, infin, catch)

    def guard(self, sc):
        return self.e_bool(sc, 1)

    def stmts(self, sc, ctx, n):
        res = []
        while n > 0 and self.size > 0:
            self.size -= 1
            n -= 1
            res.append(self.stmt(sc, ctx))
        return [x for x in res if x is not None]

    def blk(self, sc, ctx, n, extra=None):
        inner = sc + [dict(extra or {})]
        c = dict(ctx, depth=ctx["depth"] + 1)
        b = self.stmts(inner, c, n)
        return block(*b)

    def types(self):
        return ["int", "int", "string", "bool"] + (["R", "R", "R"] if "obj" in self.feat else [])

    def newname(self, sc, ty):
        if "shadow" in self.feat and self.r.random() < 0.5:
            outer = [n for s in sc[:-1] for n in s if n not in sc[-1] and not n.startswith("w")]
            if outer:
                return self.pick(sorted(outer))
            for n in ["x", "y", "z"]:
                if n not in sc[-1]:
                    return n
        return self.fresh({"int": "i", "string": "s", "bool": "b", "R": "o"}[ty])

    def stmt(self, sc, ctx):
        r = self.r
        kinds = [k for k in self.w if self.allowed(k, sc, ctx)]
        total = sum(self.w[k] for k in kinds)
        x = r.random() * total
        for k in kinds:
            x -= self.w[k]
            if x <= 0:
                break
        return getattr(self, "s_" + k)(sc, ctx)

    def allowed(self, k, sc, ctx):
        deep = ctx["depth"] >= self.maxdepth
        if k in ("if", "for", "while", "switch", "try", "block") and deep:
            return False
        if k in ("break", "continue"):
            return ctx["loop"] > 0
        if k in ("delete", "member"):
            return bool(self.vars(sc, "R")) and (k != "delete" or self.nullable)
        if k == "assign":
            return any(self.assignable(sc, t) for t in ("int", "string", "bool", "R"))
        if k in ("inc", "comp"):
            return bool(self.assignable(sc, "int"))
        if k == "rethrow":
            return ctx["catch"] > 0
        return True

    def assignable(self, sc, ty):
        return [n for n in self.vars(sc, ty) if not n.startswith("w")]

    def s_decl(self, sc, ctx):
        ty = self.pick(self.types())
        n = self.newname(sc, ty)
        if self.nullable and ty == "R" and self.r.random() < 0.15:
            e = None
        else:
            e = self.e_of(ty, sc, 2)
        if "shadow" in self.feat and e is not None and n in str(e):
            e = self.e_of(ty, sc, 0)
            if n in str(e):
                e = {"int": lit(self.r.randrange(10)), "bool": lit(True), "string": lit("v" + str(self.cnt)),
                     "R": new("R", [lit(self.fresh("n")), lit(1)], ["string", "int"])}[ty]
        sc[-1][n] = ty
        return decl(ty, n, e)

    def s_print(self, sc, ctx):
        ty = self.pick(["int", "string", "bool"])
        return print_(cat(lit(self.fresh("p") + " "), self.e_of(ty, sc, 2)))

    def s_dump(self, sc, ctx):
        """print what is visible"""
        vs = self.vars(sc, "int")[:3] + self.vars(sc, "string")[:2] + self.vars(sc, "bool")[:2]
        if not vs:
            return print_(lit(self.fresh("p")))
        return print_(cat(lit(self.fresh("v") + ":"), *[x for v in vs for x in (lit(" " + v + "="), get(v))]))

    def s_assign(self, sc, ctx):
        ts = [t for t in ("int", "string", "bool", "R", "R") if self.assignable(sc, t)]
        ty = self.pick(ts)
        return expr(asg(self.pick(self.assignable(sc, ty)), self.e_of(ty, sc, 2)))

    def s_comp(self, sc, ctx):
        op = self.pick(["+", "-", "+", "*"])
        return expr(asg(self.pick(self.assignable(sc, "int")), self.e_int(sc, 0 if op == "*" else 1), op))

    def s_inc(self, sc, ctx):
        return expr(inc(self.pick(self.assignable(sc, "int")), self.pick("+-")))

    def s_member(self, sc, ctx):
        return expr(meth(self.pick(self.vars(sc, "R")), "link", [self.e_obj(sc, 1)], ["R"]))

    def s_delete(self, sc, ctx):
        return delete(self.pick(self.vars(sc, "R")))

    def s_call(self, sc, ctx):
        f = self.pick(["int", "R", "string"])
        if f != "string" and self.fcands(f):
            return expr(self.fcall(sc, 2, f))
        return expr(fun("ti", [lit(self.fresh("i")), self.e_int(sc, 1)], ["string", "int"]))

    def s_if(self, sc, ctx):
        return if_(self.e_bool(sc, 2), self.blk(sc, ctx, 2), self.blk(sc, ctx, 2) if self.r.random() < 0.5 else None)

    def s_block(self, sc, ctx):
        return self.blk(sc, ctx, 3)

    def s_for(self, sc, ctx):
        n = self.fresh("w")
        c = dict(ctx, loop=ctx["loop"] + 1)
        return for_(decl("int", n, lit(0)), bin_("<", get(n), lit(self.r.randrange(1, 4))), expr(inc(n)),
                    self.blk(sc + [{n: "int"}], c, 3))

    def s_while(self, sc, ctx):
        n = self.fresh("w")
        c = dict(ctx, loop=ctx["loop"] + 1)
        b = self.blk(sc + [{n: "int"}], c, 3)
        b["b"].insert(0, expr(inc(n)))
        return block(decl("int", n, lit(0)), while_(bin_("<", get(n), lit(self.r.randrange(1, 4))), b))

    def s_switch(self, sc, ctx):
        c = dict(ctx, loop=0)
        n = self.r.randrange(1, 4)
        vals = self.r.sample(range(0, 6), n)

        def arm():
            b = self.blk(sc, c, 2)
            b["b"].append(break_())
            return b
        cases = [(lit(v), arm()) for v in vals]
        e = bin_("%", self.e_int(sc, 1), lit(6))
        if self.r.random() < 0.3:
            # a case that changes the value and asks for another round
            n2 = self.fresh("w")
            extra = (lit(vals[0]), block(expr(asg(n2, lit(9))), print_(lit(self.fresh("again"))), continue_()))
            return block(decl("int", n2, lit(vals[0]) if self.r.random() < 0.7 else e),
                         switch(get(n2), [extra] + cases[1:], arm()))
        return switch(e, cases, arm() if self.r.random() < 0.7 else None)

    def leaving(self, sc, s):
        return if_(self.guard(sc), block(print_(lit(self.fresh("leave"))), s))

    def s_break(self, sc, ctx):
        return self.leaving(sc, break_())

    def s_continue(self, sc, ctx):
        return self.leaving(sc, continue_())

    def s_return(self, sc, ctx):
        return self.leaving(sc, ret(self.e_of(ctx["ret"], sc, 1)) if ctx["ret"] else ret())

    def s_throw(self, sc, ctx):
        return self.leaving(sc, throw(self.thrown(sc)))

    def s_rethrow(self, sc, ctx):
        return self.leaving(sc, throw())

    def s_exit(self, sc, ctx):
        return if_(and_(self.guard(sc), self.guard(sc)), block(print_(lit(self.fresh("exit"))), exit_(lit(self.r.randrange(2, 40)))))

    def thrown(self, sc):
        c = self.r.random()
        if c < 0.25:
            return lit(self.fresh("str"))
        if c < 0.35:
            return lit(self.r.randrange(100, 200))
        if c < 0.45 and "obj" in self.feat:
            return self.e_obj(sc, 1)
        return new(self.pick(sorted(EXC)), [lit(self.fresh("x"))], ["string"])

    def handler(self, sc, ctx):
        ty = self.pick(["string", "int", "E0", "E1", "E2", "F0", ""] + (["R"] if "obj" in self.feat else []))
        c = dict(ctx, catch=ctx["catch"] + 1)
        if ty == "":
            b = self.blk(sc, c, 2)
            b["b"].insert(0, print_(lit(self.fresh("caught any"))))
            return (ty, "", b)
        n = self.fresh("e")
        extra = {n: ty} if ty in ("string", "int", "R") and not (ty == "string" and self.nullable) else {}
        # the exception variable may not be declared again: it lives in a scope of its own
        b = self.blk(sc + [extra], c, 2)
        show = {"string": get(n), "int": get(n), "R": meth(n, "name")}.get(ty, meth(n, "what"))
        if ty == "string" and self.nullable:
            show = lit("text")      # the wording of errors raised by slang itself is not specified
        b["b"].insert(0, print_(cat(lit(self.fresh("caught ") + " " + ty + " "), show)))
        return (ty, n, b)

    def s_try(self, sc, ctx):
        k = self.pick([0, 1, 1, 1, 2, 2])
        hs = [self.handler(sc, ctx) for _ in range(k)]
        # an untyped handler takes everything: it has to be the last one
        any_ = [h for h in hs if h[0] == ""][:1]
        seen, typed = set(), []
        for h in hs:
            if h[0] and h[0] not in seen:
                seen.add(h[0])
                typed.append(h)
        b = self.blk(sc, ctx, 3)
        f = None
        if self.r.random() < 0.5 or (k == 0 and self.r.random() < 0.8):
            f = self.blk(sc, ctx if "finflow" in self.feat else dict(ctx, loop=0), 2)
            f["b"].insert(0, print_(lit(self.fresh("fin"))))
        return try_(b, typed + any_, f)

    # ---------------- the program

    def function(self, n):
        ret_ = self.pick(["int", "int", "string"] + (["R", "R"] if "obj" in self.feat else []))
        ts = [self.pick(self.types()) for _ in range(self.r.randrange(0, 3))]
        ps = [("a%d_%d" % (n, i), t) for i, t in enumerate(ts)]
        sc = [{p[0]: p[1] for p in ps}]
        ctx = {"loop": 0, "ret": ret_, "depth": 1, "catch": 0}
        b = self.stmts(sc, ctx, 4)
        b.append(ret(self.e_of(ret_, sc, 1)))
        name = "f%d" % n
        m = method(name, ps, ret_, [print_(lit("in " + name))] + b, mods="modify throws", vis="private")
        self.funs.append((name, ts, ret_))
        return m

    def program(self):
        classes = []
        funcs = []
        if "trace" in self.feat:
            funcs += tracers()
        else:
            funcs += tracers()[:1]
        if "obj" in self.feat:
            classes.append(class_r("ctorthrow" in self.feat))
            funcs.append(method("valueOf", [("o", "R")], "int", [ret(meth("o", "value"))], mods="modify throws", vis="private"))
            funcs.append(method("same", [("o", "R")], "R", [ret(get("o"))], mods="modify", vis="private"))
        if "exc" in self.feat:
            classes += exceptions()
        total = self.size
        for i in range(self.nfun):
            self.size = max(3, total // (self.nfun + 2))
            funcs.append(self.function(i))
        self.size = total
        sc = [{"argc": "int"}]
        if "obj" in self.feat:
            pass
        ctx = {"loop": 0, "ret": "int", "depth": 0, "catch": 0}
        glob = []
        if "global" in self.feat:
            glob = [("wg", "int", 5)]
        main = []
        while self.size > 0:
            if "exc" in self.feat and self.r.random() < 0.75:
                c = dict(ctx, depth=1)
                b = block(*self.stmts(sc + [{}], c, 6))
                main.append(try_(b, [("", "", block(print_(lit(self.fresh("top")))))]))
            else:
                main += self.stmts(sc, ctx, 4)
        main.append(self.s_dump(sc, ctx))
        main.append(ret(lit(self.r.randrange(0, 50))))
        return program(classes, funcs, main, glob)
