"""X02: atomic values convert by fixed rules (SlangValues.tla says what every conversion yields)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_values as F
import values


def run(chk):
    rng = random.Random(chk.seed)
    values.check(chk, list(F.single()), "every value to every type")
    values.check(chk, list(F.routes(rng, 60000 if chk.thorough else 6000)), "routes")


if __name__ == "__main__":
    sys.exit(main("X02", run))
