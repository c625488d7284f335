"""L08: enumerations (SlangMachine.tla numbers and compares them, SlangStatic.tla decides which uses have to be rejected)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_enum as F
import machine
import static

PLACES = ("", "N.", "O.")


def run(chk):
    machine.check_family(chk, F.numbering(PLACES, 4 if chk.thorough else 3))
    machine.check_family(chk, F.uses(PLACES))
    progs = list(F.declarations(4 if chk.thorough else 3)) + list(F.misuse())
    static.check(chk, [q for _, q in progs], [n for n, _ in progs])


if __name__ == "__main__":
    sys.exit(main("L08", run))
