"""S04: control flow and declared exceptions (SlangStatic.tla decides which programs have to be rejected)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_static as F
import mutate
import static


def run(chk):
    progs = list(itertools.chain(F.returns(1), F.flow_positions(), F.jumps(), F.throws()))
    static.check(chk, [q for _, q in progs], [n for n, _ in progs])
    rng = random.Random(chk.seed)
    deep = list(F.returns(2))
    deep = deep if chk.thorough else rng.sample(deep, 1500)
    static.check(chk, [q for _, q in deep], ["deep/" + n for n, _ in deep])
    seqs = list(F.throw_sequences())
    seqs = seqs if chk.thorough else rng.sample(seqs, 2000)
    static.check(chk, [q for _, q in seqs], [n for n, _ in seqs])
    muts = list(mutate.mutants(rng, "S04", 8000 if chk.thorough else 1000))
    static.check(chk, [q for _, q in muts], [n for n, _ in muts], run=False)


if __name__ == "__main__":
    sys.exit(main("S04", run))
