"""M01: every imported module is loaded exactly once (SlangModules.tla says which files a program consists of)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_mod as F
import modules


def run(chk):
    rng = random.Random(chk.seed)

    def some(family, n):
        items = list(family)
        items = items if chk.thorough or len(items) <= n else rng.sample(items, n)
        modules.check(chk, [c for _, c in items], [x for x, _ in items])

    some(F.graphs(2), 200)
    some(F.graphs(3), 1500)
    some(F.graphs(3, "L"), 500)
    some(F.repeats(), 200)
    some(F.resolution(), 1500)
    some(F.packages(), 800)
    some(F.missing(), 500)


if __name__ == "__main__":
    sys.exit(main("M01", run))
