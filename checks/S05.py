"""S05: a program with an error anywhere executes nothing (SlangModules.tla says which files are part of the program)."""
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main, parallel, slang
import families_fault as F
import modules
import mutilate


def run(chk):
    rng = random.Random(chk.seed)
    faults = list(F.faults())
    layouts = list(F.layouts())
    verdicts = modules.verdicts(chk, [c for _, c in layouts])
    index = {n: i for i, (n, _) in enumerate(layouts)}
    alone = index["S/A>/B>/main>/fault-in-m"]
    todo = [(alone, [f], after) for f in faults for after in (False, True)]
    faulty = [i for i, (_, c) in enumerate(layouts) if any(f["fault"] for f in c["files"])]
    rounds = 40 if chk.thorough else 6
    for _ in range(rounds):
        for i in faulty:
            n = sum(1 for f in layouts[i][1]["files"] if f["fault"])
            todo.append((i, [rng.choice(faults) for _ in range(n)], rng.random() < 0.5))
    todo += [(i, [], False) for i in range(len(layouts)) if i not in faulty]
    if chk.thorough:
        for name in ("S/A>/B>/main>A/fault-in-A", "S/A>B/B>/main>A/fault-in-B", "L/A>B/B>/main>A/fault-in-B"):
            todo += [(index[name], [f], False) for f in faults]

    def one(j):
        i, fs, after = todo[j]
        name, c = layouts[i]
        root = os.path.join(chk.scratch, "s%d" % j)
        left = list(fs)
        texts = {}
        for f in c["files"]:
            ctx = F.CONTEXT
            bad = left.pop()[1] if f["fault"] else ""
            k = modules.key(f["path"])
            if f["path"] == c["main"]:
                t = modules.main_text(c, [], F.suffixed(ctx + ("" if after else bad), k)) + F.suffixed(bad if after else "", k)
            else:
                t = modules.text(c, f, (), F.suffixed(ctx + bad, k))
            texts[f["path"]] = t
        modules.write(root, c, [], (), texts)
        st = {s for s, _ in verdicts[i]}
        res = None
        label = "%s%s/%s" % (name, "/after" if after else "", "+".join(f[0] for f in fs))
        for args in ([], ["--syntax"]):
            r = modules.run(root, c, "env" if j % 2 else "option", args)
            out = r.lines()
            ran = "start" in out or "end" in out
            if st == {"run"}:
                ok = r.code == 0 and "[ERROR]" not in r.out + r.err and (ran == (not args))
            else:
                ok = r.code > 0 and "[ERROR]" in r.out + r.err and not ran and not r.timeout
            if not ok and not res:
                res = (label, "%s%s: the program %s; slang: exit status %s, %s, output %s" % (
                    label, " with --syntax" if args else "", "is correct" if st == {"run"} else "contains an error", r.code, "executed" if ran else "not executed", (out + r.err.split("\n"))[:4]),
                    {**{p.replace("/", "__"): t for p, t in texts.items()}, "output.txt": r.out + r.err})
        shutil.rmtree(root, ignore_errors=True)
        return res

    for x in parallel(one, range(len(todo))):
        if x:
            chk.violation(*x)
        else:
            chk.traces += 2
    # programs of which nobody knows whether they are still correct
    corpus = mutilate.corpus()
    broken = [("whole", t) for t in corpus] + [("without-token-%d" % i, t) for i, t in enumerate(mutilate.single(corpus[0]))]
    if chk.thorough:
        broken += [("%d/without-token-%d" % (k, i), t) for k, c in enumerate(corpus[1:]) for i, t in enumerate(mutilate.single(c))]
    broken += [("mutilated-%d" % i, mutilate.mutilated(rng, rng.choice(corpus[:2] + corpus))) for i in range(20000 if chk.thorough else 700)]

    def mutilated(j):
        label, t = broken[j]
        path = os.path.join(chk.scratch, "m%d.os" % j)
        text = t + '\npublic int Main(int argc, string args) {\n\tprint("start");\n\treturn 0;\n}\n'
        with open(path, "w") as f:
            f.write(text)
        syn = slang(["--syntax", path], timeout=30)
        r = slang([path], timeout=30)
        os.remove(path)
        allowed = {"run"} if label == "whole" else {"run", "rejected"}
        seen = []
        for x in (syn, r):
            if x.timeout or x.code < 0:
                seen.append("none")
            elif "[ERROR]" in x.out + x.err and x.code > 0:
                seen.append("rejected")
            else:
                seen.append("run" if x.code == 0 else "none")
        executed = "start" in r.lines()
        ok = set(seen) <= allowed and "start" not in syn.lines() and not (seen[0] == "rejected" and executed)
        # a program that passes the syntax check may still lack an entry point
        ok = ok and (seen[1] == "rejected" or seen[0] == "run")
        if ok:
            return None
        return (label, "%s: with --syntax %s (exit status %s), without %s (exit status %s, %s)" % (
            label, seen[0], "timeout" if syn.timeout else syn.code, seen[1], "timeout" if r.timeout else r.code, "executed" if executed else "not executed"),
            {"program.os": text, "output.txt": syn.out + syn.err + r.out + r.err})

    for x in parallel(mutilated, range(len(broken))):
        if x:
            chk.violation(*x)
        else:
            chk.traces += 2
    chk.extra["mutilated programs"] = len(broken)
    for j in rng.sample(range(len(todo)), 5):
        i, fs, after = todo[j]
        chk.sample({"files": layouts[i][0], "faults": [f[0] for f in fs], "verdict": verdicts[i][0][0]})


if __name__ == "__main__":
    sys.exit(main("S05", run))
