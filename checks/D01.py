"""D01: programs under the debugger (SlangDebugger.tla has a program, its events, and the debugger that stops at them)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_dbg as F
import debugger as S


def run(chk):
    rng = random.Random(chk.seed)
    S.check(chk, list(F.breaks()), "breakpoints")
    steps = [x for n in (1, 2, 3, 4) for x in F.steps(n)]
    S.check(chk, [x for n in (5, 6) for x in F.steps(n)] if chk.thorough else rng.sample(steps, 500), "steps")
    S.check(chk, list(F.some(rng, 12000 if chk.thorough else 1200)), "programs")


if __name__ == "__main__":
    sys.exit(main("D01", run))
