"""L05: variables live in their own block, call and object; values copy, objects alias (SlangMachine.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_obj
import gen
import machine

W = {"decl": 6, "print": 1, "dump": 4, "assign": 4, "comp": 2, "inc": 2, "call": 3, "if": 2, "block": 4, "for": 3, "while": 1,
     "switch": 1, "break": 0.3, "continue": 0.3, "return": 0.5}


def run(chk):
    machine.check_family(chk, itertools.chain(families_obj.var_misc(), families_obj.statics(), families_obj.scoping()))
    rng = random.Random(chk.seed)
    progs = []
    for i in range(5000 if chk.thorough else 400):
        feat = {"shadow"} | ({"obj"} if i % 2 else {"trace"})
        progs.append(gen.Gen(rng, W, feat, size=18 + rng.randrange(22), depth=4, nfun=3).program())
    machine.check_random(chk, progs)


if __name__ == "__main__":
    sys.exit(main("L05", run))
