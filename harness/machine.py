"""Binding of SlangMachine.tla to the interpreter: run programs, record what they do, let TLC judge the records."""
import json
import os

from common import CheckError, Tlc, parallel, slang
from lang import flatten, infer, render

INVARIANTS = ["RefCounts", "LifeStates", "ThisAlive", "FramesMatch", "NoLeak"]

CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLines = 150\n"


def record(prog, path, args=()):
    """Run one program; the record has the printed lines and the way it ended."""
    src = render(prog)
    with open(path, "w") as f:
        f.write(src)
    r = slang([path] + list(args))
    lines = r.lines()
    kind = "ok"
    if r.timeout:
        kind = "timeout"
    elif r.code < 0:
        kind = "crash"
    cut = None
    for i, l in enumerate(lines):
        if l == "Stack trace:" or l.startswith("[ERROR]"):
            cut = i
            break
    err = [l for l in lines + r.err.split("\n") if l.startswith("[ERROR]")]
    if cut is not None:
        lines = lines[:cut]
    if kind == "ok" and err:
        if any("Exception thrown in" in l for l in err):
            kind = "exc"
        elif any("error(s) during" in l or "Syntax error" in l for l in err):
            kind = "rejected"
        else:
            kind = "fatal"
    return {"trace": lines, "end": {"kind": kind, "code": r.code if r.code >= 0 else 1000 - r.code},
            "src": src, "out": r.out + r.err}


def judge(progs, records, invariants=True, workers=8, timeout=800):
    """TLC decides which records are behaviours of the specification.

    Returns (tlc, accepted indices, inconclusive indices, stuck {index: why}, mismatches {index: text})."""
    data = []
    for p, r in zip(progs, records):
        f = flatten(p)
        f["trace"] = r["trace"]
        f["end"] = r["end"]
        data.append(f)
    import tempfile
    fd, path = tempfile.mkstemp(suffix=".json", prefix="progs.")
    with os.fdopen(fd, "w") as f:
        json.dump(data, f)
    try:
        cfg = CFG + ("".join("INVARIANT %s\n" % i for i in INVARIANTS) if invariants else "")
        t = Tlc("SlangMachine", cfg, env={"PROGS": path}, workers=workers, timeout=timeout).expect_ok()
    finally:
        os.remove(path)
    acc = {x[0] - 1 for x in t.tuples("ACCEPT")}
    inc = {x[0] - 1 for x in t.tuples("INCONCLUSIVE")} - acc
    stuck = {x[0] - 1: x[1] for x in t.tuples("STUCK") if x[0] - 1 not in acc}
    mism = {}
    for x in t.tuples("MISMATCH"):
        i = x[0] - 1
        if i not in acc and (i not in mism or mism[i][0] < x[1]):
            mism[i] = (x[1], x[2], x[3])
    return t, acc, inc, stuck, mism


def check_programs(chk, progs, names=None, invariants=True, min_conclusive=0.8):
    """Record all programs, judge the records, report violations."""
    names = names or ["p%d" % i for i in range(len(progs))]
    paths = [os.path.join(chk.scratch, "p%d.os" % i) for i in range(len(progs))]
    recs = parallel(lambda x: record(*x), list(zip(progs, paths)))
    t, acc, inc, stuck, mism = judge(progs, recs, invariants)
    chk.add_tlc(t)
    if stuck:
        i = sorted(stuck)[0]
        raise CheckError("the specification has no transition for program %s (%s):\n%s" % (names[i], stuck[i], recs[i]["src"]))
    bad = [i for i in range(len(progs)) if i not in acc and i not in inc]
    again = [i for i in bad if recs[i]["end"]["kind"] != "timeout"]
    for i, r2 in zip(again, parallel(lambda i: record(progs[i], paths[i]), again)):
        # only a difference that can be reproduced counts
        if (r2["trace"], r2["end"]) != (recs[i]["trace"], recs[i]["end"]):
            _, a2, i2, _, _ = judge([progs[i]], [r2], False)
            if 0 in a2 or 0 in i2:
                bad.remove(i)
                acc.add(i)
    for i in bad:
        r = recs[i]
        m = mism.get(i)
        if r["end"]["kind"] == "rejected":
            what = "a valid program is rejected:\n" + r["out"]
        elif m is None:
            what = "no behaviour of the specification matches the run"
        elif m[1] == "print":
            got = r["trace"][m[0]] if m[0] < len(r["trace"]) else "end of output %s" % r["end"]
            what = "output line %d: specification prints %r, slang: %r" % (m[0] + 1, m[2], got)
        else:
            what = "the program ends differently after %d of %d lines: specification/recorded %s" % (
                m[0], len(r["trace"]), m[2])
        chk.violation(names[i], "program %s: %s" % (names[i], what),
                      {"program.os": r["src"], "output.txt": r["out"],
                       "run.txt": "SLANG_LIBRARY=/repo/Projects/Library slang program.os\nexit status %s\n" % r["end"]})
    chk.traces += len(acc)
    chk.extra["inconclusive"] = chk.extra.get("inconclusive", 0) + len(inc)
    if len(inc) > (1 - min_conclusive) * len(progs):
        raise CheckError("too many inconclusive programs: %d of %d" % (len(inc), len(progs)))
    for i in sorted(acc)[:2]:
        chk.sample({"program": recs[i]["src"][:1500], "trace": recs[i]["trace"][:30], "end": recs[i]["end"]})
    return recs, acc


def check_family(chk, family, chunk=1500):
    """All programs of an exhaustive family: pairs (name, program)."""
    # every third one with the types of variables left out where they can be
    items = [(n + "/var", infer(q)) if i % 3 == 1 and infer(q) else (n, q) for i, (n, q) in enumerate(family)]
    chk.extra["family_programs"] = chk.extra.get("family_programs", 0) + len(items)
    for i in range(0, len(items), chunk):
        part = items[i:i + chunk]
        check_programs(chk, [x[1] for x in part], [x[0] for x in part], min_conclusive=1.0)


def check_random(chk, progs, chunk=1000):
    """Randomly generated programs."""
    progs = [infer(q) or q if i % 3 == 1 else q for i, q in enumerate(progs)]
    chk.extra["random_programs"] = chk.extra.get("random_programs", 0) + len(progs)
    for i in range(0, len(progs), chunk):
        part = progs[i:i + chunk]
        check_programs(chk, part, ["seed%d-%d" % (chk.seed, i + j) for j in range(len(part))])
