"""L01: expressions are read and evaluated as the grammar says (SlangExpr.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import exprs
import families_obj
import machine


def run(chk):
    rng = random.Random(chk.seed)
    exprs.check(chk, exprs.chains(2, rng))
    exprs.check(chk, exprs.shapes())
    exprs.check(chk, exprs.chains(3, rng, 40000 if chk.thorough else 5000))
    r = exprs.Rand(rng)
    exprs.check(chk, [r.make(3 + i % 3) for i in range(40000 if chk.thorough else 3000)])
    machine.check_family(chk, families_obj.eval_order())


if __name__ == "__main__":
    sys.exit(main("L01", run))
