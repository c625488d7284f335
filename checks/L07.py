"""L07: a generic class behaves like the class written out by hand for its type arguments (SlangMachine.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_gen as fg
import machine


def run(chk):
    machine.check_family(chk, itertools.chain(fg.basics(), fg.two_boxes(), fg.pairs(), fg.members(), fg.lists(), fg.inherit(), fg.uses_of_t(), fg.triples(), fg.parameter_only()))
    rng = random.Random(chk.seed)
    machine.check_random(chk, [fg.Random(rng).program() for _ in range(6000 if chk.thorough else 250)])


if __name__ == "__main__":
    sys.exit(main("L07", run))
