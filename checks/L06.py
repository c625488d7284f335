"""L06: a call runs the method selected by receiver class, name and argument types (SlangMachine.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_cls as fc
import machine


def run(chk):
    machine.check_family(chk, itertools.chain(fc.overriding(), fc.params_and_defaults(), fc.operators(), fc.conversions(), fc.reassigning(), fc.escapes()))
    machine.check_family(chk, fc.overloading())
    rng = random.Random(chk.seed)
    machine.check_random(chk, [fc.Hier(rng).program() for _ in range(6000 if chk.thorough else 600)])


if __name__ == "__main__":
    sys.exit(main("L06", run))
