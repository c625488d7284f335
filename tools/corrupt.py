"""Corrupts recorded runs in one place each; TLC has to reject every one of them."""
import copy
import os
import random
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common
import gen
import machine

W = {"decl": 3, "print": 2, "dump": 2, "assign": 2, "inc": 1, "call": 1, "if": 3, "block": 1, "for": 3, "while": 2, "switch": 2, "break": 1, "return": 1}


def corrupted(r, rng):
    i = rng.randrange(len(r["trace"]))
    def edit(name, fn):
        c = copy.deepcopy(r)
        fn(c)
        return name, c
    yield edit("changed line", lambda c: c["trace"].__setitem__(i, c["trace"][i] + "x"))
    yield edit("dropped line", lambda c: c["trace"].pop(i))
    yield edit("repeated line", lambda c: c["trace"].insert(i, c["trace"][i] + " "))
    yield edit("cut off", lambda c: c["trace"].pop())
    yield edit("other status", lambda c: c["end"].__setitem__("code", (c["end"]["code"] + 1) % 256))
    yield edit("other end", lambda c: c["end"].__setitem__("kind", "exc" if c["end"]["kind"] == "ok" else "ok"))


def main():
    common.build()
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    with tempfile.TemporaryDirectory() as d:
        progs = [gen.Gen(rng, W, {"trace"}, size=20, depth=4).program() for _ in range(60)]
        recs = [machine.record(p, os.path.join(d, "p%d.os" % i)) for i, p in enumerate(progs)]
    _, acc, _, _, _ = machine.judge(progs, recs)
    ps, rs, names = [], [], []
    for i in sorted(acc):
        if recs[i]["trace"]:
            for name, c in corrupted(recs[i], rng):
                ps.append(progs[i])
                rs.append(c)
                names.append(name)
    _, bad, inc, _, _ = machine.judge(ps, rs)
    print("%d runs accepted, %d corrupted ones: %d accepted, %d undecided" % (len(acc), len(rs), len(bad), len(inc)))
    for i in sorted(bad):
        print(names[i], rs[i]["trace"], rs[i]["end"])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
