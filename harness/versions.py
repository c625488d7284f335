"""Versions: SlangVersions.tla reads and orders them; the C++ class and libSemVer have to agree (V01)."""
import glob
import json
import os
import subprocess

import common
from cases import ask
from common import CheckError, parallel, slang

CFG = "".join("INVARIANT %s\n" % i for i in ("Irreflexive", "Total", "Transitive", "PreRelease", "Follows"))
LABELS = ["", "a", "b", "A", "ab", "rc1", "a.1", "a.2", "a.10", "a.b", "a.b.1", "1", "2", "10", "0", "1.a", "a-b", "-", "false", "alpha", "beta.11", "beta.2"]
BUILDS = ["", "001", "002", "b", "1.2", "a-b", "false"]


def text(v):
    return "%d.%d.%d%s%s" % (v[0], v[1], v[2], "-" + v[3] if v[3] else "", "+" + v[4] if v[4] else "")


def numbers(rng, thorough):
    """versions (texts) that matter: all small cores, all labels, all builds with some labels, random ones"""
    res = [(a, b, c, "", "") for a in (0, 1, 2, 10) for b in (0, 1, 9, 10) for c in (0, 2, 10)]
    res += [(1, 0, 0, l, "") for l in LABELS] + [(1, 0, 1, l, "") for l in LABELS[::3]] + [(0, 0, 0, l, "") for l in LABELS[::4]]
    res += [(1, 0, 0, l, b) for b in BUILDS for l in ("", "a", "a.10")]
    for _ in range(150 if thorough else 30):
        pick = lambda: rng.choice((0, 1, 2, 3, 9, 10, 11, 99, 100, 2147483, rng.randint(0, 1000)))
        res.append((pick(), pick(), pick(), rng.choice(LABELS), rng.choice(BUILDS) if rng.random() < 0.3 else ""))
    return sorted({text(v) for v in res})


def driver(chk):
    """the C++ class, compiled from the repository's sources"""
    exe = os.path.join(chk.scratch, "versions")
    utils = os.path.join(common.REPO, "Projects", "Utils")
    libs = [p for p in glob.glob(os.path.join(common.BUILD, "**", "*.a"), recursive=True)]
    cmd = ["g++", "-std=c++14", "-I", utils, "-I", os.path.join(common.REPO, "Projects"), "-o", exe, os.path.join(common.VERIF, "native", "versions.cpp"),
           "-Wl,--start-group"] + libs + ["-Wl,--end-group", "-ldl", "-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("cannot build the driver: " + p.stdout[-500:])
    return exe


def check(chk, rng):
    texts = numbers(rng, chk.thorough)
    n = len(texts)
    others = [list(range(1, n + 1)) for _ in texts]
    laws = sorted(rng.sample(range(1, n + 1), 60 if chk.thorough else 30))
    files = {}
    for name, value in (("others", others), ("laws", laws), ("codes", [chr(c) for c in range(33, 127)])):
        files[name.upper()] = os.path.join(chk.scratch, name + ".json")
        with open(files[name.upper()], "w") as f:
            json.dump(value, f)
    t = ask(chk, "SlangVersions", [list(x) for x in texts], CFG, env=files)
    order = {(a - 1, b - 1): r for a, b, r in t.tuples("PAIR")}
    read = {x - 1: tuple(rest[:3]) + ("".join(rest[3]), "".join(rest[4])) for x, *rest in t.tuples("VERSION")}
    if len(order) != n * n or len(read) != n:
        raise CheckError("answers missing: %d of %d" % (len(order), n * n))
    core = lambda *v: "%d.%d.%d" % v
    follow = {x: (core(v[0], v[1], v[2] + 1), core(v[0], v[1] + 1, 0), core(v[0] + 1, 0, 0)) for x, v in read.items()}
    flags = {-1: "1001", 1: "0101", 0: "0010"}

    exe = driver(chk)
    pairs = [(x, y) for x in range(n) for y in range(n)]
    p = subprocess.run([exe], input="".join("%s %s\n" % (texts[x], texts[y]) for x, y in pairs), stdout=subprocess.PIPE, text=True, timeout=120)
    got = p.stdout.splitlines()
    if len(got) != len(pairs):
        chk.violation("class:end", "the version class ended with %d after %d of %d comparisons" % (p.returncode, len(got), len(pairs)), {})
    for (x, y), line in zip(pairs, got):
        chk.traces += 1
        want = "%s %s %s %s %s" % ((text(read[x]), flags[order[x, y]]) + follow[x])
        if line != want:
            chk.violation("class", "the version class compares %s with %s as %r, the specification says %r" % (texts[x], texts[y], line, want),
                          {"input.txt": "%s %s\n" % (texts[x], texts[y]), "expected.txt": want + "\n"})

    # the library: build metadata is not read from texts there, so versions are also built from their parts
    def make(x):
        v = read[x]
        return 'new SemVer( %d, %d, %d, "%s", "%s" )' % v if v[4] or x % 2 else 'SemVer.FromString( "%s" )' % texts[x]

    def one(rows):
        path = os.path.join(chk.scratch, "v%d.os" % rows[0])
        with open(path, "w") as f:
            f.write("import libSemVer.SemVer;\nimport System.Collections.Vector;\n\npublic int Main(int argc, string args) modify throws {\n\tVector<SemVer> v = new Vector<SemVer>();\n")
            f.write("".join("\tv.push_back( %s );\n" % make(x) for x in range(n)))
            f.write("\tfor ( int x = %d; x < %d; x++ ) {\n" % (rows[0], rows[-1] + 1))
            f.write('\t\tSemVer a = v.at(x);\n\t\tprint(cast<string>( a ) + " " + cast<string>( a.nextBugfix() ) + " " + cast<string>( a.nextMinor() ) + " " + cast<string>( a.nextMajor() ) + " " + a.Major + " " + a.Minor + " " + a.Bugfix);\n')
            f.write('\t\tstring r;\n\t\tfor ( int y = 0; y < %d; y++ ) {\n\t\t\tSemVer b = v.at(y);\n\t\t\tr += "" + (a < b) + (a > b) + (a == b) + (a != b) + " ";\n\t\t}\n\t\tprint(r);\n\t}\n\treturn 0;\n}\n' % n)
        return slang([path], timeout=100)

    size = (n + 7) // 8
    parts = [list(range(i, min(i + size, n))) for i in range(0, n, size)]
    for rows, r in zip(parts, parallel(one, parts)):
        lines = r.lines()
        for m, x in enumerate(rows):
            chk.traces += 1
            v = read[x]
            head = "%s %s %s %s %d %d %d" % ((text(v),) + follow[x] + v[:3])
            if len(lines) < 2 * m + 2:
                chk.violation("library:end", "libSemVer ends at %s with status %s %s" % (texts[x], r.code, r.err[-200:]), {})
                break
            if lines[2 * m] != head:
                chk.violation("library:read", "libSemVer reads %s as %r, the specification says %r" % (texts[x], lines[2 * m], head), {"expected.txt": head})
            cells = lines[2 * m + 1].split()
            for y in range(n):
                if y >= len(cells) or cells[y] != flags[order[x, y]]:
                    chk.violation("library:order", "libSemVer compares %s with %s as %s, the specification says %s (less, greater, equal, unequal)"
                                  % (texts[x], texts[y], cells[y] if y < len(cells) else None, flags[order[x, y]]), {"versions.txt": "%s %s\n" % (texts[x], texts[y])})
    chk.sample({"versions": n, "pairs": n * n, "triples of the laws": len(laws) ** 3})
