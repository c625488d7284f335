"""N01: mathematical functions (SlangMath.tla has their exact values and the equations between them)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_math as F
import maths as M


def run(chk):
    rng = random.Random(chk.seed)
    M.check(chk, list(F.exact(rng, 200 if chk.thorough else 20)), "exact values")
    M.check(chk, list(F.laws(rng, 400 if chk.thorough else 30)), "equations")


if __name__ == "__main__":
    sys.exit(main("N01", run))
