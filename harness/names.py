"""Names and namespaces: SlangNames.tla says which declaration a reference denotes; slang has to use the same one (M02).

A world is a tree of namespaces with declarations of a function f, a variable v, a class C and an enumeration E.
A site is a place with a reference; the program prints what the reference reaches."""
import os
import shutil

from cases import ask
from common import CheckError, parallel, slang

CFG = "".join("INVARIANT %s\n" % i for i in ("Declared", "Innermost", "Absolute", "Private", "Unique"))
NAMES = ["A", "B", "D"]


def dotted(p):
    return ".".join(p)


def world(rng, depth=3, files=1):
    """random namespaces and declarations"""
    paths = [()]
    for _ in range(rng.randint(1, 6)):
        p = rng.choice(paths)
        if len(p) < depth:
            q = p + (rng.choice(NAMES),)
            if q not in paths:
                paths.append(q)
    w = {"paths": paths, "private": set(p for p in paths if p and rng.random() < 0.12), "decls": {}, "members": {}, "files": files}
    for p in paths:
        for n in "fvCE":
            if rng.random() < (0.65 if p else 0.5):
                w["decls"][p, n] = "private" if rng.random() < 0.15 else "public"
                if n == "C":
                    w["members"][p] = [m for m in "fv" if rng.random() < 0.3]
    return w


def spec_world(w):
    decls = [{"p": list(p), "n": n, "vis": vis} for (p, n), vis in w["decls"].items()]
    decls += [{"p": list(p[:-1]), "n": p[-1], "vis": "private" if p in w["private"] else "public"} for p in w["paths"] if p]
    decls += [{"p": list(p + ("C",)), "n": m, "vis": "public"} for p, ms in w["members"].items() for m in ms]
    bases = []
    for s in w["sites"]:
        decls += [{"p": list(s["scope"]), "n": m, "vis": "public"} for m in s["own"]]
        decls += [{"p": list(s["scope"]) + ["r"], "n": m, "vis": "public"} for m in s["locals"]]
        if s["base"] is not None:
            bases.append({"p": list(s["scope"]), "b": list(s["base"]) + ["C"]})
    return {"decls": decls, "bases": bases}


def number(w, p):
    return 100 + 7 * sorted(w["paths"]).index(p)


def declaration(w, p, n):
    vis, text = w["decls"][p, n], dotted(p + (n,))
    if n == "f":
        return '%s string f() { return "%s"; }' % (vis, text)
    if n == "v":
        return '%s string v = "%s";' % (vis, text)
    if n == "E":
        return "%s enum E { a = %d; }" % (vis, number(w, p))
    ms = w["members"][p]
    return '%s object C { public string id() { return "%s"; }%s%s }' % (
        vis, text, ' public string f() { return "%s:f"; }' % text if "f" in ms else "", ' public string v = "%s:v";' % text if "v" in ms else "")


def sites(rng, w, n):
    """places with references; a name of a scope is written from inside"""
    res = []
    for i in range(n):
        p = rng.choice([q for q in w["paths"] if not any(q[:a + 1] in w["private"] for a in range(1, len(q)))])
        last = rng.choice("ffvvCCE")
        form = rng.random()
        if form < 0.3:
            ref = (last,)
        elif form < 0.75:
            targets = [q for q, m in w["decls"] if m == last and q]
            q = rng.choice(targets) if targets else ("A",)
            ref = q[rng.randint(0, len(q) - 1):] + (last,)
        else:
            ref = tuple(rng.choice(NAMES) for _ in range(rng.randint(1, 2))) + (last,)
        cls = rng.random() < 0.4
        base = None
        if cls and rng.random() < 0.5:
            cs = [q for (q, m), vis in w["decls"].items() if m == "C" and vis == "public" and not any(q[:a + 1] in w["private"] for a in range(len(q)))]
            base = rng.choice(cs) if cs else None
            if base is not None and reached(w, p, base + ("C",)) != base:
                base = None             # cannot be written from here
        res.append({"p": p, "ref": ref, "last": last, "n": i, "cls": cls, "base": base,
                    "scope": p + (("K%d" % i) if cls else "r%d" % i,),
                    "own": [m for m in "fv" if cls and rng.random() < 0.2],
                    "locals": ["v"] if rng.random() < 0.15 else [],
                    "use": rng.choice({"f": ["call"], "v": ["read", "write"], "E": ["enum", "typed"], "C": ["new", "param", "result", "member", "cast", "is", "var", "derive"]}[last])})
    w["sites"] = res


def reached(w, p, ref):
    """scope of the base class a site names (the sites of a world are built before the specification is asked)"""
    for a in range(len(p), -1, -1):
        q = p[:a]
        if (q, ref[0]) in w["decls"] or q + (ref[0],) in w["paths"]:
            return q + ref[:-1] if q + ref[:-1] in w["paths"] else None
    return None


def site(s):
    """text of a site: declarations in its namespace; r() yields the text the reference reaches"""
    x, n, u = dotted(s["ref"]), s["n"], s["use"]
    pre, helper, params = "", "", ""
    if u == "call":
        body = "return %s();" % x
    elif u == "read":
        body = "return %s;" % x
    elif u == "write":
        body = '%s = %s + "!"; return %s;' % (x, x, x)
    elif u == "enum":
        body = "return cast<string>(cast<int>(%s.a));" % x
    elif u == "typed":
        body = "%s e = %s.a; return cast<string>(cast<int>(e));" % (x, x)
    elif u == "new":
        body = "%s c = new %s(); return c.id();" % (x, x)
    elif u == "var":
        body = "var c = new %s(); return c.id();" % x
    elif u == "param":
        helper = "%s string h%d(%s c) { return c.id(); }" % ("private" if s["cls"] else "public", n, x)
        body = "return h%d(new %s());" % (n, x)
    elif u == "result":
        helper = "%s %s h%d() { return new %s(); }" % ("private" if s["cls"] else "public", x, n, x)
        body = "%s c = h%d(); return c.id();" % (x, n)
    elif u == "member":
        pre = "public object M%d { public %s c; public void Constructor() { c = new %s(); } public string id() { return c.id(); } }" % (n, x, x)
        body = "M%d m = new M%d(); return m.id();" % (n, n)
    elif u == "derive":
        pre = "public object M%d extends %s { public int extra; }" % (n, x)
        body = "M%d m = new M%d(); return m.id();" % (n, n)
    elif u == "cast":
        body = "%s c = new %s(); %s d = cast<%s>(c); return d.id();" % (x, x, x, x)
    elif u == "is":
        body = "%s c = new %s(); if ( c is %s ) { return c.id(); } return \"\";" % (x, x, x)
    loc = "".join('string %s = "r%d:%s"; ' % (m, n, m) for m in s["locals"])
    fun = "public string r%s() modify { %s%s }" % ("" if s["cls"] else n, loc, body)
    if not s["cls"]:
        return "\n".join(t for t in (pre, helper, fun) if t)
    own = "".join({"f": ' public string f() { return "K%d:f"; }', "v": ' public string v = "K%d:v";'}[m] % n for m in s["own"])
    ext = " extends %s" % dotted(s["base"] + ("C",)) if s["base"] is not None else ""
    return "\n".join(t for t in (pre, "public object K%d%s {%s %s %s }" % (n, ext, own, helper, fun),
                                 "public string r%d() { K%d k = new K%d(); return k.r(); }" % (n, n, n)) if t)


def spaced(p, lines, private, style):
    """a block of declarations in a namespace"""
    if not p:
        return lines
    if style and not any(p[:a + 1] in private for a in range(len(p))):
        return ["public namespace %s {" % dotted(p)] + ["\t" + x for x in lines] + ["}"]
    res = lines
    for a in range(len(p), 0, -1):
        res = ["%s namespace %s {" % ("private" if p[:a] in private else "public", p[a - 1])] + ["\t" + x for x in res] + ["}"]
    return res


def program(rng, w, chosen):
    """files of a program with the declarations of the world and the given sites"""
    files = [[] for _ in range(w["files"])]
    blocks = []
    for p in w["paths"]:
        items = [declaration(w, p, n) for n in "fvCE" if (p, n) in w["decls"]]
        rng.shuffle(items)
        if p:
            blocks.append((p, []))                      # the namespace exists even if nothing is declared in it
        while items:
            n = rng.randint(1, len(items))
            blocks.append((p, items[:n]))
            items = items[n:]
    rng.shuffle(blocks)
    # a type named in a declaration has to be declared before, and imported files are read last (see forward)
    early = any(s["base"] is not None or s["use"] in ("param", "result", "member", "derive") for s in chosen)
    for p, items in blocks:
        here = early and (not items or any(" object C " in x for x in items))
        (files[0] if here else rng.choice(files)).extend(spaced(p, items, w["private"], rng.random() < 0.5))
    for s in chosen:
        files[0].extend(spaced(s["p"], site(s).split("\n"), w["private"], rng.random() < 0.5))
    main = ["import Part%d;" % i for i in range(1, len(files))] + files[0]
    main += ["public void Main(int argc, string args) modify {"] + ["\tprint(\"%d=\" + %s);" % (s["n"], dotted(s["p"] + ("r%d()" % s["n"],))) for s in chosen] + ["}"]
    res = {"main.os": "\n".join(main) + "\n"}
    for i in range(1, len(files)):
        res["Part%d.os" % i] = "\n".join(files[i]) + "\n"
    return res


def text(w, s, scope, writes):
    """what a site prints when its reference denotes the declaration in scope"""
    scope = tuple(scope)
    if s["last"] == "E":
        return str(number(w, scope))
    if scope == s["scope"]:
        t = "K%d:%s" % (s["n"], s["last"])
    elif scope == s["scope"] + ("r",):
        t = "r%d:%s" % (s["n"], s["last"])
    elif scope[-1:] == ("C",):
        t = dotted(scope) + ":" + s["last"]
    else:
        t = dotted(scope + (s["last"],))
    if s["use"] == "write" and (scope[-1:] == ("C",) or scope[:len(s["scope"])] == s["scope"]):
        return t + "!"                  # a variable of its own object or call
    if s["last"] == "v":
        writes.setdefault(scope, 0)
        writes[scope] += s["use"] == "write"
        return t + "!" * writes[scope]
    return t


def check(chk, rng, worlds, label, negative=6):
    refs = []
    for a, w in enumerate(worlds):
        for s in w["sites"]:
            refs.append({"world": a + 1, "at": list(s["scope"]) + (["r"] if s["locals"] else []), "ref": list(s["ref"])})
    t = ask(chk, "SlangNames", {"worlds": [spec_world(w) for w in worlds], "refs": refs}, CFG)
    found = [None] * len(refs)
    for k, st, scope in t.tuples("NAME"):
        found[k - 1] = (st, scope)
    if any(f is None for f in found):
        raise CheckError("no result for some reference")
    runs, base = [], 0
    for a, w in enumerate(worlds):
        res = list(zip(w["sites"], found[base:base + len(w["sites"])]))
        base += len(w["sites"])
        good = [(s, f[1]) for s, f in res if f[0] == "found"]
        bad = [s for s, f in res if f[0] == "missing" or f[0] == "hidden" and s["use"] != "derive"]     # private base classes: open
        rng.shuffle(good)
        if good:
            writes = {}
            want = ["%d=%s" % (s["n"], text(w, s, scope, writes)) for s, scope in good]
            runs.append((a, [s for s, _ in good], program(rng, w, [s for s, _ in good]), want))
        for s in bad[:negative]:
            runs.append((a, [s], program(rng, w, [s]), None))

    def one(job):
        a, chosen, files, want = job
        folder = os.path.join(chk.scratch, "n%s_%d_%d" % (label.replace(" ", ""), a, chosen[0]["n"] if want is None else 999))
        os.makedirs(folder)
        for name, content in files.items():
            with open(os.path.join(folder, name), "w") as f:
                f.write(content)
        r = slang([os.path.join(folder, "main.os")])
        shutil.rmtree(folder)
        return r

    for (a, chosen, files, want), r in zip(runs, parallel(one, runs)):
        chk.traces += 1
        if want is None:
            s = chosen[0]
            if r.code == 0 or "[ERROR]" not in r.err + r.out:
                chk.violation("name:accepted:%d:%d" % (a, s["n"]), "%s: %s in %s denotes nothing but is accepted (printed %r)"
                              % (label, dotted(s["ref"]), dotted(s["scope"]), r.out[:100]), files)
            continue
        got = r.lines()
        if r.code != 0 or got != want:
            bad = [(s, x, y) for s, x, y in zip(chosen, want, got + [""] * len(want)) if x != y]
            s, x, y = bad[0] if bad else (chosen[0], "", "")
            chk.violation("name:%d:%d" % (a, s["n"]), "%s: %s in %s gives %r, the specification says %r (status %d: %s)"
                          % (label, dotted(s["ref"]), dotted(s["scope"]), y, x, r.code, (r.err or r.out).strip()[:200] if r.code else ""), files)
    n = {}
    for f in found:
        n[f[0]] = n.get(f[0], 0) + 1
    chk.sample({"part": label, "references": n})


FORWARD = {
    "param": "public string h(C c) { return c.id(); } %s public string r() { return h(new C()); }",
    "result": "public C h() { return new C(); } %s public string r() { C c = h(); return c.id(); }",
    "member": "public object K { public C c; public void Constructor() { c = new C(); } } %s public string r() { K k = new K(); return k.c.id(); }",
    "base": "public object K extends C { } %s public string r() { K k = new K(); return k.id(); }",
}


def forward(chk):
    """a type used in a declaration that stands before its own one"""
    w = {"paths": [(), ("A",)], "private": set(), "decls": {(("A",), "C"): "public"}, "members": {("A",): []}, "files": 1, "sites": []}
    t = ask(chk, "SlangNames", {"worlds": [spec_world(w)], "refs": [{"world": 1, "at": ["A", "r"], "ref": ["C"]}]}, CFG)
    (k, st, scope), = t.tuples("NAME")
    for name, text in sorted(FORWARD.items()):
        path = os.path.join(chk.scratch, "forward_%s.os" % name)
        prog = "public namespace A { %s }\npublic void Main(int argc, string args) { print(A.r()); }\n" % (text % declaration(w, ("A",), "C"))
        with open(path, "w") as f:
            f.write(prog)
        r = slang([path])
        chk.traces += 1
        if st != "found" or r.code != 0 or r.lines() != [dotted(tuple(scope) + ("C",))]:
            chk.violation("forward:" + name, "a type named in the declaration of a %s before it is declared in the same namespace: %s"
                          % (name, (r.err or r.out).strip().split("\n")[0][:150]), {"program.os": prog})
