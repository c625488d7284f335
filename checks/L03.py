"""L03: exceptions reach the nearest matching handler, finally always runs (SlangMachine.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families
import gen
import machine

W = {"decl": 2, "print": 2, "dump": 1, "assign": 1, "call": 3, "if": 2, "block": 1, "for": 2, "while": 1, "switch": 1,
     "break": 1, "continue": 1, "return": 1, "throw": 5, "rethrow": 3, "exit": 0.2, "try": 6}


def run(chk):
    machine.check_family(chk, itertools.chain(families.exc_selection(), families.exc_flows(), families.exc_handlers(), families.exc_nested(),
                                              families.exc_sites(), families.exc_uncaught()))
    rng = random.Random(chk.seed)
    progs = []
    for i in range(5000 if chk.thorough else 400):
        feat = {"trace", "exc"} | ({"finflow"} if i % 2 else set())
        progs.append(gen.Gen(rng, W, feat, size=20 + rng.randrange(20), depth=4, nfun=3).program())
    machine.check_random(chk, progs)


if __name__ == "__main__":
    sys.exit(main("L03", run))
