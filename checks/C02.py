"""C02: string functions (SlangStrings.tla defines them over sequences of characters)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_str as F
import strings_ as S


def run(chk):
    rng = random.Random(chk.seed)
    S.check(chk, list(F.every(rng, 1.0 if chk.thorough else 0.7)), "short texts")
    S.check(chk, list(F.templates(rng, 1.0 if chk.thorough else 0.3)), "texts with variables")
    S.check(chk, list(F.some(rng, 20000 if chk.thorough else 6000)), "longer texts")


if __name__ == "__main__":
    sys.exit(main("C02", run))
