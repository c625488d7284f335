"""S01: ill-typed operations are rejected before execution and well-typed ones run (SlangStatic.tla decides which programs have to be rejected)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_static as F
import mutate
import static


def run(chk):
    progs = list(itertools.chain(F.types(), F.argument_counts(), F.positions(F.FAULTS, 1 if chk.thorough else 3)))
    static.check(chk, [q for _, q in progs], [n for n, _ in progs])
    rng = random.Random(chk.seed)
    muts = list(mutate.mutants(rng, "S01", 8000 if chk.thorough else 1000))
    static.check(chk, [q for _, q in muts], [n for n, _ in muts], run=False)


if __name__ == "__main__":
    sys.exit(main("S01", run))
