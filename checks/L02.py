"""L02: statements run in structured order (SlangMachine.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families
import gen
import machine

W = {"decl": 3, "print": 2, "dump": 2, "assign": 2, "comp": 1, "inc": 1, "call": 1, "if": 3, "block": 1, "for": 4, "while": 3,
     "switch": 3, "break": 2, "continue": 2, "return": 1}


def run(chk):
    machine.check_family(chk, families.control_nests(2))
    machine.check_family(chk, families.control_nests(2, rare=True))
    machine.check_family(chk, families.bare_nests(3 if chk.thorough else 2))
    rng = random.Random(chk.seed)
    progs = [gen.Gen(rng, W, {"trace"}, size=18 + rng.randrange(25), depth=4).program()
             for _ in range(6000 if chk.thorough else 500)]
    machine.check_random(chk, progs)
    if chk.thorough:
        machine.check_family(chk, families.control_nests(3))


if __name__ == "__main__":
    sys.exit(main("L02", run))
