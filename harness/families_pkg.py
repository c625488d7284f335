"""Repositories and commands for the package manager (K01)."""
from packages import NAMES, VERSIONS, op

N = len(NAMES)
TOP = len(VERSIONS)


def repository(available, deps, index, arch=(0, 0, 0, 0)):
    """available: versions per module; deps: {(m, v): [(d, min)]} holds for v and later ones until the next entry"""
    table = []
    for m in range(1, N + 1):
        row, last = [], []
        for v in range(1, TOP + 1):
            last = deps.get((m, v), last)
            row.append([{"m": d, "min": lo} for d, lo in last])
        table.append(row)
    return {"modules": N, "available": [[v in available[m] for v in range(1, TOP + 1)] for m in range(N)], "deps": table,
            "index": [list(i) for i in index], "arch": list(arch)}


CHAIN = repository([[1, 3, 6], [2, 4, 5], [3, 4], [1, 5]],
                   {(2, 1): [(1, 1)], (2, 4): [(1, 3)], (3, 1): [(2, 4), (4, 1)], (4, 1): [(1, 3)]}, [[3, 4, 3, 1], [6, 5, 4, 5]])
DIAMOND = repository([[1, 3, 5], [1, 6], [1, 2], [3, 4]],
                     {(2, 1): [(1, 1)], (2, 6): [(1, 5)], (3, 1): [(1, 3)], (4, 1): [(2, 1), (3, 1)], (4, 4): [(2, 6), (3, 2)]}, [[5, 6, 2, 4], [5, 6, 2, 3]])
CYCLE = repository([[1, 2], [1, 2], [3, 4], [1, 6]],
                   {(1, 1): [(2, 1)], (1, 2): [(2, 2)], (2, 1): [(1, 1)], (3, 1): [(1, 2), (3, 3)], (4, 1): [(3, 0)]}, [[2, 2, 4, 1], [2, 2, 3, 6]])
BROKEN = repository([[1, 3], [1, 2], [], [3, 4]],
                    {(1, 1): [(0, 1)], (1, 3): [(0, 2)], (2, 1): [(1, 1)], (2, 2): [(3, 1)], (4, 1): [(1, 1)]}, [[1, 2, 4, 4], [3, 1, 0, 4]], (1, 1, 0, 2))
FIXED = [CHAIN, DIAMOND, CYCLE, BROKEN]


def some_repository(rng):
    av = [sorted(rng.sample(range(1, TOP + 1), rng.randint(2, 4))) for _ in range(N)]
    index2 = [a[-1] for a in av]
    index1 = [rng.choice([0] + a) if rng.random() < 0.3 else rng.choice(a) for a in av]
    free = {m for m in range(1, N + 1) if rng.random() < 0.2}          # dependencies on these have no minimum
    acyclic = rng.random() < 0.7
    deps = {}
    for m in range(1, N + 1):
        last = {}
        order = [d for d in range(1, N + 1) if d != m and (not acyclic or (d * 7 + 3) % 5 < (m * 7 + 3) % 5)]
        for v in av[m - 1]:
            for d in order:
                if rng.random() < 0.4:
                    last[d] = 0 if d in free else max(last.get(d, 0), rng.choice(av[d - 1]))
            if rng.random() < 0.05:
                last[0] = max(last.get(0, 0), rng.choice([1, 1, 2]))
            deps[(m, v)] = sorted(last.items())
    return repository(av, deps, [index1, index2], [rng.choice([0, 0, 0, 1, 2]) if rng.random() < 0.2 else 0 for _ in range(N)])


def versions(u, m):
    return [v for v in range(1, TOP + 1) if u["available"][m - 1][v - 1]]


def start(u, rng, cached=None):
    inst = [rng.choice([0] + versions(u, m)) if u["arch"][m - 1] != 2 else 0 for m in range(1, N + 1)]
    lo, hi = [0] * N, [0] * N
    for m in range(N):
        if rng.random() < 0.25:
            a, b = sorted((rng.randint(1, TOP), rng.randint(1, TOP)))
            lo[m], hi[m] = rng.choice([(a, 0), (0, b), (a, b)])
    return {"inst": inst, "min": lo, "max": hi, "cached": rng.choice([0, 1, 1, 2, 2]) if cached is None else cached, "remote": rng.choice([0, 1, 2, 2])}


def commands(u, rng):
    """all commands of a kind"""
    mods = list(range(1, N + 1))
    res = [op("upgrade"), op("list"), op("update")]
    for m in mods:
        res += [op("install", m), op("remove", m), op("purge", m), op("upgrade", m), op("install", m, skip=True), op("install", m, force=True),
                op("restrict", m), op("restrict", m, lo=rng.randint(1, TOP)), op("restrict", m, hi=rng.randint(1, TOP)), op("restrict", m, lo=2, hi=5)]
        res += [op("install", (m, v)) for v in range(1, TOP + 1)]
    res += [op("install", a, b) for a in mods for b in mods if a != b]
    res += [op("install", *rng.sample(mods, 3)), op("install", *mods), op("remove", *rng.sample(mods, 2)), op("purge", *rng.sample(mods, 2)),
            op("upgrade", *rng.sample(mods, 2)), op("upgrade", skip=True)]
    a, b = rng.sample(mods, 2)
    res += [op("install", (a, rng.choice(versions(u, a) or [1])), b), op("install", (a, rng.choice(versions(u, a) or [1])), skip=True)]
    res += [op("search", text=t) for t in ("json", "", "NET", "data", "parser", "for programs", "none such")]
    return res


def transitions(repositories, rng, starts):
    """every command in some states"""
    res = []
    for n, u in enumerate(repositories, 1):
        for _ in range(starts):
            for c in commands(u, rng):
                res.append({"repository": n, "start": start(u, rng), "ops": [c]})
    return res


def histories(repositories, rng, count, length):
    res = []
    for _ in range(count):
        n = rng.randint(1, len(repositories))
        u = repositories[n - 1]
        ops = []
        pool = [c for c in commands(u, rng)]
        for _ in range(length):
            if rng.random() < 0.12:
                ops.append(op("publish", lo=rng.choice([0, 1, 2, 2])))
            elif rng.random() < 0.2:
                ops.append(rng.choice([op("upgrade"), op("update"), op("list")]))
            else:
                ops.append(rng.choice(pool))
        res.append({"repository": n, "start": dict(start(u, rng), **({"inst": [0] * N} if rng.random() < 0.5 else {})), "ops": ops})
    return res
