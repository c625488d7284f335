"""K01: the package manager (SlangPackages.tla has the library, the restrictions and the index, and the commands that change them)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_pkg as F
import packages as S


def run(chk):
    rng = random.Random(chk.seed)
    repos = F.FIXED + [F.some_repository(rng) for _ in range(30 if chk.thorough else 8)]
    S.check(chk, repos, F.transitions(repos, rng, 12 if chk.thorough else 2), "single commands")
    S.check(chk, repos, F.histories(repos, rng, 3000 if chk.thorough else 250, 10), "sequences of commands")
    S.check(chk, repos, F.histories(repos, rng, 300 if chk.thorough else 60, 6), "sequences of commands over http", over_http=True)


if __name__ == "__main__":
    sys.exit(main("K01", run))
