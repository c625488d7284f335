"""L04: an object is destroyed exactly once, when its last reference goes away (SlangMachine.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_obj
import gen
import machine

W = {"decl": 5, "print": 2, "dump": 1, "assign": 4, "member": 2, "delete": 1, "call": 3, "if": 2, "block": 2, "for": 2,
     "while": 1, "switch": 1, "break": 1, "continue": 1, "return": 1, "throw": 2, "rethrow": 1, "exit": 0.2, "try": 3}


def run(chk):
    machine.check_family(chk, itertools.chain(families_obj.life_temps(), families_obj.life_receivers(), families_obj.life_matrix()))
    rng = random.Random(chk.seed)
    progs = []
    for i in range(6000 if chk.thorough else 500):
        feat = {"obj", "exc"} | [{"null"}, {"finflow"}, {"ctorthrow"}, {"trace"}][i % 4]
        progs.append(gen.Gen(rng, W, feat, size=18 + rng.randrange(22), nfun=2 + i % 2).program())
    machine.check_random(chk, progs)


if __name__ == "__main__":
    sys.exit(main("L04", run))
