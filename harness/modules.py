"""Programs made of several files: SlangModules.tla says what is loaded and whether anything is executed; slang has to agree.

A case: files {path: (imports, fault)}, the path of the main file, library folders.  Paths are relative to a scratch folder;
module p/A of folder d is d/p/A.slang, d/p/A.os, d/p/A/All.slang or d/p/A/All.os.  Every file defines functions that tell its path, so the
output of the program shows which files were loaded."""
import os
import shutil

from cases import ask
from common import CheckError, parallel, slang

CFG = "INVARIANT Once\nINVARIANT Bounded\nINVARIANT Nested\nINVARIANT Clean\nINVARIANT Complete\n"


EXTS = (".slang", ".os", "/All.slang", "/All.os")


def key(path):
    """the name under which a file is imported from its folder, as identifier"""
    n = path.rsplit(".", 1)[0]
    parts = n.split("/")[1:]
    if parts and parts[-1] == "All":
        parts = parts[:-1]
    return "_".join(parts)


def case(files, main, libs, faults=None):
    return {"files": [{"path": p, "dir": p.rsplit("/", 1)[0], "imports": list(i), "fault": (faults or {}).get(p, "")} for p, i in sorted(files.items())],
            "main": main, "libs": list(libs)}


def verdicts(chk, cs):
    """for every case the list of (state, loaded files) the specification allows"""
    t = ask(chk, "SlangModules", cs, CFG)
    res = [[] for _ in cs]
    for k, st, loaded in t.tuples("LOAD"):
        if (st, loaded) not in res[k - 1]:
            res[k - 1].append((st, loaded))
    if any(not r for r in res):
        raise CheckError("no verdict for some case")
    return res


def targets(c, f, runs):
    """keys of the modules that the imports of file f denote in every allowed outcome (those whose names differ are left out)"""
    paths = {x["path"] for x in c["files"]}
    res = []
    for i in dict.fromkeys(f["imports"]):
        keys = set()
        for loaded in runs:
            found = [f["dir"] + "/" + i + e for e in EXTS if f["dir"] + "/" + i + e in paths][:1] or [l + "/" + i + e for l in c["libs"] + [c["main"].rsplit("/", 1)[0]] for e in EXTS if l + "/" + i + e in loaded]
            keys |= {key(x) for x in found}
        if len(keys) == 1 and keys != {key(c["main"])}:
            res.append(keys.pop())
    return res


def text(c, f, runs=(), extra=""):
    """source of an imported file"""
    k = key(f["path"])
    return ("".join("import %s;\n" % i.replace("/", ".") for i in f["imports"]) +
            "public string who_%s() const { return \"%s\"; }\n" % (k, f["path"]) +
            "public string all_%s() const { return %s; }\n" % (k, " + ".join(["\"<\""] + ["who_%s()" % n for n in targets(c, f, runs)] + ["\">\""])) + extra)


def main_text(c, calls, extra=""):
    f = [x for x in c["files"] if x["path"] == c["main"]][0]
    return ("#!/usr/bin/env slang\n" + "".join("import %s;\n" % i.replace("/", ".") for i in f["imports"]) + extra +
            "public void Main(int argc, string args) modify throws {\n\tprint(\"start\");\n" + "".join("\tprint(%s);\n" % x for x in calls) + "\tprint(\"end\");\n}\n")


def expected(c, loaded, keys, runs):
    by = {key(p): p for p in loaded}
    files = {f["path"]: f for f in c["files"]}
    out = ["start"]
    for k in keys:
        out.append(by[k])
        out.append("<" + "".join(by[n] for n in targets(c, files[by[k]], runs)) + ">")
    return out + ["end"]


def write(root, c, calls, runs=(), texts=None):
    shutil.rmtree(root, ignore_errors=True)
    for d in [c["main"].rsplit("/", 1)[0]] + c["libs"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in c["files"]:
        path = os.path.join(root, f["path"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as o:
            if texts and f["path"] in texts:
                o.write(texts[f["path"]])
            else:
                o.write(main_text(c, calls) if f["path"] == c["main"] else text(c, f, runs))


def run(root, c, how="env", args=(), cwd=None):
    libs = [os.path.join(root, l) for l in c["libs"]]
    if how == "env":
        return slang(list(args) + [os.path.join(root, c["main"])], library=":".join(libs), cwd=cwd or root)
    opts = []
    for l in libs:
        opts += ["-l", l]
    return slang(opts + list(args) + [os.path.join(root, c["main"])], library="", cwd=cwd or root)


def check(chk, cs, names, negative=True):
    """slang loads what the specification says"""
    vs = verdicts(chk, cs)
    todo = []
    for i, (c, v) in enumerate(zip(cs, vs)):
        sts = {s for s, _ in v}
        if "open" in sts or any(len({key(p) for p in l}) < len(l) for _, l in v):
            chk.extra["open"] = chk.extra.get("open", 0) + 1
            continue
        todo.append((i, c, v, None))
        if negative and sts == {"run"}:
            lk = {key(p) for _, l in v for p in l}
            for k in sorted({key(f["path"]) for f in c["files"]} - lk):
                todo.append((i, c, v, k))
                break

    def one(j):
        i, c, v, absent = todo[j]
        root = os.path.join(chk.scratch, "m%d" % j)
        runs = [l for s, l in v if s == "run"]
        keys = sorted(set.intersection(*[{key(p) for p in l if p != c["main"]} for l in runs])) if runs else []
        calls = [x for k in keys for x in ("who_%s()" % k, "all_%s()" % k)]
        if absent:
            calls = ["who_%s()" % absent]
        write(root, c, calls, runs)
        how = "env" if i % 2 == 0 else "option"
        r = run(root, c, how)
        ok = []
        if not absent:
            ok += [("run", expected(c, l, keys, runs)) for l in runs]
        if absent or any(s == "error" for s, _ in v):
            ok.append(("error", None))
        good = False
        for s, out in ok:
            if s == "run" and r.code == 0 and r.lines() == out and "[ERROR]" not in r.err:
                good = True
            if s == "error" and r.code not in (0,) and r.code > 0 and "start" not in r.lines() and "[ERROR]" in r.out + r.err:
                good = True
        res = None
        if not good:
            what = "module %s is not imported but its names are available" % absent if absent else "specification: %s" % ["%s %s" % x for x in ok][:2]
            tree = "".join("%s: %s\n" % (f["path"], f["imports"]) for f in c["files"])
            res = (names[i], "case %s: %s; slang: exit status %s, output %s" % (names[i], what, r.code, (r.lines() + r.err.split("\n"))[:8]),
                   {"files.txt": tree + "main %s, library folders %s (%s)\n" % (c["main"], c["libs"], how), "output.txt": r.out + r.err,
                    **{f["path"].replace("/", "__"): open(os.path.join(root, f["path"])).read() for f in c["files"]}})
        shutil.rmtree(root, ignore_errors=True)
        return res

    bad = [x for x in parallel(one, range(len(todo))) if x]
    for x in bad:
        chk.violation(*x)
    chk.traces += len(todo) - len(bad)
    for j in range(0, min(len(todo), 2)):
        i, c, v, _ = todo[j]
        chk.sample({"case": names[i], "files": {f["path"]: f["imports"] for f in c["files"]}, "allowed": v[:2]})
