"""F01: files (SlangFiles.tla has files as sequences of bytes and handles with one position each)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_file as F
import files as S


def run(chk):
    rng = random.Random(chk.seed)
    modes = list(F.modes())
    S.check(chk, modes if chk.thorough else rng.sample(modes, 900) + modes[-24:], "modes")
    S.check(chk, list(F.values()), "values")
    S.check(chk, list(F.codes()), "bytes")
    S.check(chk, list(F.backs()), "bytes put back and errors")
    seeks = list(F.seeks())
    S.check(chk, seeks if chk.thorough else rng.sample(seeks, 200), "seeks")
    S.check(chk, list(F.uses()), "closed files")
    S.check(chk, list(F.temporaries()), "files without a name")
    several = list(F.several())
    S.check(chk, several if chk.thorough else several[:16] + rng.sample(several[16:], 200), "several files")
    S.check(chk, list(F.some(rng, 20000 if chk.thorough else 2500)), "long histories")


if __name__ == "__main__":
    sys.exit(main("F01", run))
