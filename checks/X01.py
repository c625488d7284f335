"""X01: layout and comments do not change the meaning of a program (SlangLexer.tla says which tokens a text consists of)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from common import main
import families_layout as F
import layout


def run(chk):
    rng = random.Random(chk.seed)
    texts = [t for n in (1, 2, 3, 4) for t in F.short(n)]
    layout.check_tokens(chk, texts if chk.thorough else texts[:584] + rng.sample(texts[584:], 2500), "all short texts")
    layout.check_tokens(chk, sorted({"".join(rng.choice(F.ALPHABET) for _ in range(rng.randint(5, 9))) for _ in range(40000 if chk.thorough else 2500)}), "random texts")
    layout.check_tokens(chk, sorted({"".join(rng.choice(F.WIDE) for _ in range(rng.randint(2, 12))) for _ in range(40000 if chk.thorough else 2500)}), "random texts with operators")
    layout.check_tokens(chk, sorted(set(F.strings())), "strings")
    progs = ["\n".join(p.strip().split("\n")) + "\n" for p in F.PROGRAMS]
    for i, p in enumerate(progs):
        ps = F.pieces(p)
        vs = [(0, F.everywhere(ps, g)) for g in F.GAPS]
        spots = [(j, g) for j in range(len(ps)) for g in F.GAPS]
        vs += [(0, F.at(ps, j, g)) for j, g in (spots if chk.thorough else rng.sample(spots, 120))]
        vs += [(0, F.relayout(rng, ps, d)) for d in [0, 0.02, 0.1, 0.3, 0.6, 1] for _ in range(100 if chk.thorough else 12)]
        layout.check_layouts(chk, [p], vs, "program %d" % (i + 1))


if __name__ == "__main__":
    sys.exit(main("X01", run))
