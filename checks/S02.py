"""S02: constants and const methods modify nothing (SlangStatic.tla decides which programs have to be rejected)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_static as F
import mutate
import static


def run(chk):
    progs = list(itertools.chain(F.constants(), F.const_methods(), F.const_members(), F.reference_lists(), F.positions(F.CONST_FAULTS, 1 if chk.thorough else 2)))
    static.check(chk, [q for _, q in progs], [n for n, _ in progs])
    rng = random.Random(chk.seed)
    muts = list(mutate.mutants(rng, "S02", 8000 if chk.thorough else 1000))
    static.check(chk, [q for _, q in muts], [n for n, _ in muts], run=False)


if __name__ == "__main__":
    sys.exit(main("S02", run))
