"""R01: arguments, output and exit status (SlangProcess.tla says what a command line leads to)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_process as F
import process


def run(chk):
    rng = random.Random(chk.seed)
    process.check(chk, list(F.exits(rng)), "exits")
    process.check(chk, list(F.arguments(rng)), "arguments")
    process.check(chk, list(F.options(rng, 6000 if chk.thorough else 800)), "options")
    process.check(chk, list(F.programs(rng, 6000 if chk.thorough else 800)), "programs")


if __name__ == "__main__":
    sys.exit(main("R01", run))
