"""Small changes of programs that may break a static rule; SlangStatic.tla decides whether they do."""
import copy
import itertools

import families as fa
import families_cls as fc
import families_obj as fo
from lang import *

TYPES = ["bool", "int", "string"]


def bases(rng, n):
    """n programs (all accepted) to start from"""
    pool = []
    for f in (fa.control_nests, fa.exc_selection, fa.exc_flows, fa.exc_handlers, fa.exc_nested, fa.exc_sites, fc.overriding, fc.overloading,
              fc.params_and_defaults, fc.operators, fc.reassigning, fo.life_matrix, fo.life_temps, fo.life_receivers, fo.scoping, fo.eval_order):
        xs = [q for _, q in f() if not q["pre"] and not q["post"] and not any(c.get("hidden") or c.get("short") for c in q["classes"])]
        pool.append(xs)
    out = []
    while len(out) < n:
        out.append(copy.deepcopy(rng.choice(rng.choice(pool))))
    return out


def nodes(p):
    """every expression and statement node with a setter, and every statement list"""
    exprs, stmts, lists = [], [], []

    def expr_(owner, key):
        e = owner[key]
        if not isinstance(e, dict):
            return
        exprs.append((owner, key))
        for k in ("e", "l", "r", "c", "a", "b"):
            if isinstance(e.get(k), dict):
                expr_(e, k)
        if isinstance(e.get("a"), list):
            for i in range(len(e["a"])):
                expr_(e["a"], i)

    def stmt_(s):
        stmts.append(s)
        k = s["k"]
        if k == "block":
            list_(s["b"])
            return
        for f in ("c", "e", "v"):
            if isinstance(s.get(f), dict):
                expr_(s, f)
        if k == "if":
            stmt_(s["a"])
            if s["b"]:
                stmt_(s["b"])
        elif k in ("while", "foreach", "for"):
            if k == "for":
                for f in ("i", "s"):
                    if s[f]:
                        stmt_(s[f])
            stmt_(s["b"])
        elif k in ("switch", "try"):
            if k == "try":
                stmt_(s["b"])
            for c in s["cs"]:
                if "v" in c:
                    expr_(c, "v")
                stmt_(c["b"])
            for f in ("d", "f"):
                if s.get(f):
                    stmt_(s[f])

    def list_(b):
        lists.append(b)
        for s in b:
            stmt_(s)

    for m in methods(p):
        if m["body"] != ["abstract"]:
            list_(m["body"])
    list_(p["main"])
    return exprs, stmts, lists


def methods(p):
    return [m for c in p["classes"] for m in c["methods"]] + p["funcs"]


def names(p):
    return [c["n"] for c in p["classes"]]


def m_literal(p, r):
    xs = [(o, k) for o, k in nodes(p)[0] if o[k]["k"] == "lit" and o[k]["raw"] is not None]
    o, k = r.choice(xs)
    o[k] = lit(r.choice([True, 4, "mut"]))


def m_decl(p, r):
    s = r.choice([s for s in nodes(p)[1] if s["k"] == "decl"])
    s["ty"] = r.choice(TYPES + names(p))


def m_param(p, r):
    q = r.choice([q for m in methods(p) for q in m["ps"]])
    q["ty"] = r.choice(TYPES + names(p))
    q["d"] = None


def m_result(p, r):
    m = r.choice([m for m in methods(p) if m["n"] not in ("Constructor", "Destructor")])
    m["ret"] = r.choice(TYPES + names(p) + ["void"])


def m_operator(p, r):
    o, k = r.choice([(o, k) for o, k in nodes(p)[0] if o[k]["k"] == "bin"])
    o[k]["op"] = r.choice(["+", "-", "*", "==", "<", "%", "&"])


def m_name(p, r):
    ex = [(o[k]) for o, k in nodes(p)[0] if o[k]["k"] == "get"]
    a, b = r.choice(ex), r.choice(ex)
    a["p"] = list(b["p"]) if r.random() < .8 else a["p"][:-1] + ["nowhere"]


def m_args(p, r):
    e = r.choice([o[k] for o, k in nodes(p)[0] if o[k]["k"] in ("call", "new") and "sugar" not in o[k]])
    if e["a"] and r.random() < .6:
        del e["a"][r.randrange(len(e["a"]))]
    else:
        e["a"].insert(r.randrange(len(e["a"]) + 1), lit(r.choice([True, 4, "mut"])))


def m_swap(p, r):
    ex = [(o, k) for o, k in nodes(p)[0] if o[k]["k"] in ("get", "lit", "call", "new")]
    (a, i), (b, j) = r.choice(ex), r.choice(ex)
    a[i] = copy.deepcopy(b[j])


def m_constvar(p, r):
    s = r.choice([s for s in nodes(p)[1] if s["k"] == "decl"])
    if "const" not in s["n"]:
        s["n"] += " const"


def m_constparam(p, r):
    q = r.choice([q for m in methods(p) for q in m["ps"] if not {"const", "modify"} & set((q["n"] + " " + q["mods"]).split())])
    q["mods"] = ("const " + q["mods"]).strip()


def m_constmethod(p, r):
    m = r.choice([m for c in p["classes"] for m in c["methods"] if m["n"] not in ("Constructor", "Copy") and "static" not in m["vis"]])
    w = m["mods"].split()
    m["mods"] = " ".join([r.choice(["const", "modify"])] + [x for x in w if x not in ("const", "modify")])


def m_visfield(p, r):
    c = r.choice([c for c in p["classes"] if c["fields"]])
    i = r.randrange(len(c["fields"]))
    f = c["fields"][i]
    c["fields"] = list(c["fields"])
    c["fields"][i] = (f[0], f[1], f[2], r.choice(["public", "protected", "private"]))


def m_vismethod(p, r):
    m = r.choice([m for c in p["classes"] for m in c["methods"]])
    m["vis"] = " ".join([r.choice(["public", "protected", "private"])] + m["vis"].split()[1:])


def m_base(p, r):
    c = r.choice([c for c in p["classes"] if c["base"]])
    c["base"] = r.choice(names(p) + ["Nowhere"])


def m_drop(p, r):
    l = [(b, i) for b in nodes(p)[2] for i, s in enumerate(b) if s["k"] in ("return", "break", "continue", "throw")]
    b, i = r.choice(l)
    del b[i]


def m_insert(p, r):
    b = r.choice(nodes(p)[2])
    s = r.choice([break_(), continue_(), throw(lit("mut")), throw(lit(4)), ret(), ret(lit(1))])
    b.insert(r.randrange(len(b) + 1), if_(bin_("==", lit(1), lit(2)), block(s)) if r.random() < .6 else s)


def m_throws(p, r):
    m = r.choice([m for m in methods(p) if "throws" in m["mods"]])
    m["mods"] = m["mods"].replace("throws", "").strip()


def m_catch(p, r):
    c = r.choice([c for s in nodes(p)[1] if s["k"] == "try" for c in s["cs"] if c["ty"]])
    c["ty"] = r.choice(TYPES + names(p))


KINDS = {
    "S01": [m_literal, m_decl, m_param, m_result, m_operator, m_name, m_args, m_swap],
    "S02": [m_constvar, m_constvar, m_constparam, m_constmethod, m_constmethod],
    "S03": [m_visfield, m_visfield, m_vismethod, m_vismethod, m_base],
    "S04": [m_drop, m_drop, m_insert, m_insert, m_throws, m_throws, m_catch],
}


def mutants(rng, prop, n):
    for i, p in enumerate(bases(rng, n)):
        p["main"] = [print_(lit("start"))] + p["main"]
        done = []
        for k in rng.sample(KINDS[prop], len(KINDS[prop])):
            try:
                k(p, rng)
                done.append(k.__name__[2:])
            except IndexError:          # nothing of this kind in the program
                continue
            if len(done) == (2 if rng.random() < .3 else 1) or len(done) == 2:
                break
        yield "mutant/%s/%d/%s" % (prop, i, "+".join(done)), p
