"""T01: times are written as the calendar shows them and read back (SlangTime.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_time as F
import times as T


def run(chk):
    rng = random.Random(chk.seed)
    T.check(chk, list(F.writes(rng, 3000 if chk.thorough else 60)), "writing")
    T.check(chk, list(F.reads(rng, 3000 if chk.thorough else 60)), "reading")
    T.check_now(chk)


if __name__ == "__main__":
    sys.exit(main("T01", run))
