"""Families of import graphs (M01)."""
import itertools

from modules import case

EXTS = (".slang", ".os", "/All.slang", "/All.os")


def graphs(n=3, place="S"):
    """every import graph of n modules, every order in which the main file imports some of them"""
    mods = "ABCD"[:n]
    seqs = [s for k in range(n + 1) for s in itertools.permutations(mods, k)]
    for bits in itertools.product((0, 1), repeat=n * n):
        adj = {m: [x for j, x in enumerate(mods) if bits[i * n + j]] for i, m in enumerate(mods)}
        for s in seqs:
            files = {"%s/%s.os" % (place, m): adj[m] for m in mods}
            files["S/main.os"] = list(s)
            yield "graph/%s/%s/%s" % (place, "".join(map(str, bits)), "".join(s)), case(files, "S/main.os", ["L"])


def repeats():
    """the same module imported several times, and modules that import the main file"""
    for s in itertools.product("AB", repeat=3):
        for a in ([], ["B"], ["B", "B"], ["A"]):
            yield "repeat/%s/%s" % ("".join(s), "".join(a)), case({"S/main.os": list(s), "S/A.os": a, "S/B.os": []}, "S/main.os", [])
    for s in (["A"], ["A", "B"], ["B", "A"]):
        for a, b in itertools.product(([], ["main"], ["B"], ["B", "main"], ["main", "B"]), ([], ["main"], ["A"], ["A", "main"])):
            yield "back/%s/%s/%s" % ("".join(s), "+".join(a), "+".join(b)), case({"S/main.os": s, "S/A.os": a, "S/B.os": b}, "S/main.os", [])
    yield "back/self", case({"S/main.os": ["main"]}, "S/main.os", [])


def resolution():
    """module A present in any combination of forms in the folder of the program and in two library folders"""
    for bits in itertools.product((0, 1), repeat=12):
        files = {"m/main.os": ["A"]}
        for i, (d, e) in enumerate(itertools.product(("m", "a", "z"), EXTS)):
            if bits[i]:
                files[d + "/A" + e] = []
        yield "resolve/" + "".join(map(str, bits)), case(files, "m/main.os", ["a", "z"])


def packages():
    """module p/X imports A; both may be in several folders"""
    places = ("m", "m/p", "a", "a/p", "z", "z/p")
    for xs in itertools.product((0, 1), repeat=3):
        for bits in itertools.product((0, 1), repeat=6):
            for imp in (["p/X"], ["p/X", "A"], ["A", "p/X"]):
                files = {"m/main.os": imp}
                for x, d in zip(xs, ("m", "a", "z")):
                    if x:
                        files[d + "/p/X.os"] = ["A"]
                for b, d in zip(bits, places):
                    if b:
                        files[d + "/A.os"] = []
                if len({f for f in files if f.endswith("/A.os")}) != sum(bits):
                    continue
                yield "package/%s/%s/%s" % ("".join(map(str, xs)), "".join(map(str, bits)), "+".join(imp).replace("/", ".")), case(files, "m/main.os", ["a", "z"])


def missing():
    """names that denote nothing, next to files with similar names"""
    near = ("p.os", "p.slang", "p/All.os", "p/AB.os", "p/A/B.os", "A.os", "p/a.os", "p/A.txt", "pA.os")
    for name in ("p/A", "p/A/B", "q", "p/q/A"):
        for k in (0, 1, 2):
            for sub in itertools.combinations(near, k):
                files = {"m/main.os": [name]}
                for s in sub:
                    files["m/" + s] = []
                if any(f.replace("/", "_") == g.replace("/", "_") and f != g for f in files for g in files):
                    continue
                yield "missing/%s/%s" % (name.replace("/", "."), "+".join(sub).replace("/", ".")), case(files, "m/main.os", [])
                files = {f.replace("m/", "a/") if f != "m/main.os" else f: i for f, i in files.items()}
                yield "missing-lib/%s/%s" % (name.replace("/", "."), "+".join(sub).replace("/", ".")), case(files, "m/main.os", ["a"])
