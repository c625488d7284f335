"""C01: collections behave like sequences, stacks, queues, sets and maps (SlangCollections.tla answers histories of operations)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import collections_ as C
import families_coll as F


def run(chk):
    rng = random.Random(chk.seed)
    C.check(chk, [(k, rng.choice(("int", "string")), ops) for k in F.KINDS for ops in F.complete(k, rng)], "short histories")
    C.check(chk, [("Range", "int", ops, start) for start, ops in F.ranges(rng, 2000 if chk.thorough else 300)], "ranges")
    C.probes(chk)
    n = 1500 if chk.thorough else 150
    C.check(chk, [(k, t, F.random_history(k, rng, rng.randint(5, 25))) for k in F.KINDS for t in ("int", "string") for _ in range(n)], "long histories")


if __name__ == "__main__":
    sys.exit(main("C01", run))
