"""V01: semantic versions (SlangVersions.tla reads, orders and advances them)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import versions


def run(chk):
    versions.check(chk, random.Random(chk.seed))


if __name__ == "__main__":
    sys.exit(main("V01", run))
