"""M02: names in namespaces resolve to the innermost enclosing declaration (SlangNames.tla says which one a reference denotes)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import names


def run(chk):
    rng = random.Random(chk.seed)
    for files, n in ((1, 6000 if chk.thorough else 300), (3, 2000 if chk.thorough else 100)):
        worlds = []
        for _ in range(n):
            w = names.world(rng, files=files)
            names.sites(rng, w, 14)
            worlds.append(w)
        names.check(chk, rng, worlds, "%d file(s)" % files)
    names.forward(chk)


if __name__ == "__main__":
    sys.exit(main("M02", run))
