"""The package manager: SlangPackages.tla says what a sequence of commands leaves in the library (K01)."""
import http.server
import json
import os
import shutil
import tarfile
import tempfile
import threading

from cases import ask
from common import CheckError, binary, parallel, slang

CFG = "INVARIANT TypeOK\nPROPERTIES Restricted WithDependencies Fulfils Refuses NoDowngrade\n"
NAMES = ["Core", "Json", "JsonRpc", "Net"]           # in the order of their names
VERSIONS = ["0.9.9", "1.0.0-beta", "1.0.0", "1.2.0", "1.10.0", "2.0.0"]
NOBODY = {"user": 65534, "group": 65534, "extra_groups": []} if os.getuid() == 0 else {}


def op(name, *ms, skip=False, force=False, lo=0, hi=0, text=""):
    return {"op": name, "ms": [{"m": m if isinstance(m, int) else m[0], "v": 0 if isinstance(m, int) else m[1]} for m in ms],
            "skip": skip, "force": force, "min": lo, "max": hi, "text": text}


def version(v):
    return VERSIONS[v - 1] if v else ""


def description(m):
    return "%s for programs" % {1: "Basics", 2: "Texts", 3: "Calls", 4: "Sockets"}[m]


def keywords(m):
    return {1: ["base"], 2: ["data", "Parser"], 3: ["remote", "data"], 4: []}[m]


def module_json(u, m, v):
    name = NAMES[m - 1]
    deps = []
    for d in u["deps"][m - 1][v - 1]:
        e = {"module": "Slang" if d["m"] == 0 else NAMES[d["m"] - 1]}
        if d["m"] == 0:
            e["version_min"] = "0.0.1" if d["min"] <= 1 else "999.0.0"
        elif d["min"]:
            e["version_min"] = version(d["min"])
        deps.append(e)
    res = {"name": "%s module" % name, "name_short": name, "version": version(v), "description": description(m), "keywords": keywords(m),
           "dependencies": deps, "target": {"type": "internal"}}
    if u["arch"][m - 1]:
        res["architecture"] = os.uname().machine if u["arch"][m - 1] == 1 else "pdp11"
    return res


def contents(u, m, v):
    """the files of a module"""
    name = NAMES[m - 1]
    return {"module.json": json.dumps(module_json(u, m, v), indent=1), name + ".os": "// %s %s\n" % (name, version(v)),
            "sub/part.txt": "%s %s\n" % (name, version(v)), "only-%s.txt" % version(v): "x\n"}


def put(path, files):
    for f, text in files.items():
        p = os.path.join(path, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as out:
            out.write(text)


def publish(path, u):
    """the modules of a repository, archived by slang-pkg itself; returns what went wrong"""
    bad = []
    jobs = [(m, v) for m in range(1, u["modules"] + 1) for v in range(1, len(u["available"][m - 1]) + 1) if u["available"][m - 1][v - 1]]

    def one(job):
        m, v = job
        name = NAMES[m - 1]
        work = tempfile.mkdtemp(dir=path)
        files = contents(u, m, v)
        put(os.path.join(work, name), files)
        own(work)
        r = slang(["create", name], cwd=work, tool="slang-pkg", library=work, **NOBODY)
        base = os.path.join(work, "%s_%s" % (name, version(v)))
        dest = os.path.join(path, "modules", name, version(v))
        os.makedirs(dest)
        try:
            with tarfile.open(base + ".tar.gz") as t:
                got = {n.name: t.extractfile(n).read().decode() for n in t.getmembers() if n.isfile()}
            if got != {name + "/" + f: x for f, x in files.items()}:
                return "create %s: the archive holds %s" % (name, sorted(got))
            if open(base + ".json").read() != files["module.json"]:
                return "create %s: the module information is not the module's" % name
            shutil.copy(base + ".tar.gz", os.path.join(dest, "module.tar.gz"))
            shutil.copy(base + ".json", os.path.join(dest, "module.json"))
        except (OSError, tarfile.TarError) as e:
            return "create %s %s: no package (%s) %s" % (name, version(v), e, r.err[-100:])
        finally:
            shutil.rmtree(work)
        return None

    for job, b in zip(jobs, parallel(one, jobs)):
        if b:
            bad.append((job, b))
    return bad


def own(path):
    if not NOBODY:
        return
    os.chown(path, 65534, 65534)
    for root, dirs, files in os.walk(path):
        for f in dirs + files:
            os.lchown(os.path.join(root, f), 65534, 65534)


def index(u, n):
    return {"modules": [{"name": NAMES[m - 1], "version": version(u["index"][n - 1][m - 1]), "name_full": "%s module" % NAMES[m - 1],
                         "description": description(m), "keywords": keywords(m)}
                        for m in range(1, u["modules"] + 1) if u["index"][n - 1][m - 1]]}


class Quiet(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *args):
        pass


def serve(path):
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), lambda *a, **k: Quiet(*a, directory=path, **k))
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s


def command(o):
    args = [o["op"]]
    for p in o["ms"]:
        args.append(NAMES[p["m"] - 1] + (":" + version(p["v"]) if p["v"] else ""))
    if o["op"] == "restrict" and (o["min"] or o["max"]):
        args.append("%s:%s" % (version(o["min"]), version(o["max"])))
    if o["op"] == "search" and o["text"]:
        args.append(o["text"])
    if o["skip"]:
        args.append("--skip-dependencies")
    if o["force"]:
        args.append("--force")
    return args


def prepare(lib, case, u, url):
    put(lib, {".slang/config.json": json.dumps({"repository": {"name": "main", "url": url}, "restrictions": restrictions(case["start"]["min"], case["start"]["max"]) or None})})
    for d in ("apps", "cache/modules", "cache/repositories"):
        os.makedirs(os.path.join(lib, ".slang", d))
    if case["start"]["cached"]:
        put(lib, {".slang/cache/repositories/main.json": json.dumps(index(u, case["start"]["cached"]))})
    for m, v in enumerate(case["start"]["inst"], 1):
        if v:
            put(os.path.join(lib, NAMES[m - 1]), contents(u, m, v))


def restrictions(lo, hi):
    res = {}
    for m, (a, b) in enumerate(zip(lo, hi)):
        if a or b:
            res[NAMES[m]] = dict([("version_min", version(a))] * bool(a) + [("version_max", version(b))] * bool(b))
    return res


def state(lib, u, inst, lo, hi, cached):
    """what differs from the specified state"""
    expected = {NAMES[m] for m in range(len(inst)) if inst[m]}
    found = {f for f in os.listdir(lib) if f != ".slang"}
    if found != expected:
        return "the library holds %s, the specification says %s" % (sorted(found), sorted(expected))
    for m, v in enumerate(inst, 1):
        if v:
            path = os.path.join(lib, NAMES[m - 1])
            have = {}
            for root, _, files in os.walk(path):
                for f in files:
                    p = os.path.join(root, f)
                    have[os.path.relpath(p, path)] = open(p, errors="replace").read()
            try:
                at = json.loads(have.get("module.json", ""))["version"]
            except (ValueError, KeyError):
                at = None
            if at != version(v):
                return "%s is installed in version %s, the specification says %s" % (NAMES[m - 1], at, version(v))
            for f, text in contents(u, m, v).items():
                if have.pop(f, None) != text:
                    return "%s of %s %s is missing or another version's" % (f, NAMES[m - 1], version(v))
            if any(not f.startswith("only-") for f in have):
                return "%s holds foreign files %s" % (NAMES[m - 1], sorted(have))
    try:
        config = json.load(open(os.path.join(lib, ".slang", "config.json")))
        got = {k: v for k, v in (config["restrictions"] or {}).items() if v}
    except (ValueError, KeyError, OSError) as e:
        return "the configuration is unreadable: %s" % e
    if got != restrictions(lo, hi):
        return "the restrictions are %s, the specification says %s" % (got, restrictions(lo, hi))
    try:
        have = json.load(open(os.path.join(lib, ".slang/cache/repositories/main.json")))
    except (OSError, ValueError):
        have = None
    if have != (index(u, cached) if cached else None):
        return "the cached index is not %s" % ("the one downloaded last" if cached else "missing")
    return None


def listed(inst):
    return ["%s:%s - %s module" % (NAMES[m], version(v), NAMES[m]) for m, v in enumerate(inst) if v]


def hits(u, cached, text):
    t = text.lower()
    return ["%s:%s - %s" % (e["name"], e["version"], e["name_full"]) for e in index(u, cached)["modules"]
            if any(t in x.lower() for x in [e["name"], e["description"]] + e["keywords"])]


def shown(o, r, u, inst, cached):
    out = [l for l in r.out.split("\n") if l]
    if o["op"] == "list":
        mods = sorted(l for l in out if " - " in l and not l.startswith("Slang:"))
        if mods != sorted(listed(inst)):
            return "lists %s" % mods
        slang_itself = any(l.startswith("Slang:") for l in out)
        if "%d module(s) installed." % (len(mods) + slang_itself) not in out:
            return "lists %d modules and says %r" % (len(mods), out[-1:])
    if o["op"] == "search" and cached:
        got = sorted(l for l in out if " - " in l)
        if got != sorted(hits(u, cached, o["text"])):
            return "search %r finds %s" % (o["text"], got)
        if ("%d result(s) found." % len(got) if got else "Nothing found.") not in out:
            return "search says %r" % out[-1:]
    return None


def check(chk, repositories, cases, label, over_http=False):
    """cases: repository (number from 1), start, ops"""
    send = [dict(c, ops=[{x: o[x] for x in ("op", "ms", "skip", "force", "min", "max")} for o in c["ops"]]) for c in cases]
    fd, path = tempfile.mkstemp(suffix=".json", prefix="repos.", dir=chk.scratch)
    with os.fdopen(fd, "w") as f:
        json.dump(repositories, f)
    t = ask(chk, "SlangPackages", send, CFG, env={"REPOSITORIES": path})
    want = {n: {} for n in range(len(cases))}
    for x in t.tuples("S"):
        want[x[0] - 1][x[1]] = x[2:]

    root = tempfile.mkdtemp(prefix="packages.")
    os.chmod(root, 0o755)
    server = None
    try:
        for n, u in enumerate(repositories):
            d = os.path.join(root, "repo%d" % n)
            os.mkdir(d)
            os.chmod(d, 0o755)
            for (m, v), b in publish(d, u):
                chk.violation("create", b)
                return
        server = serve(root) if over_http else None

        def one(n):
            case = cases[n]
            u = repositories[case["repository"] - 1]
            d = os.path.join(root, "case%d" % n)
            lib = os.path.join(d, "my lib" if n % 5 == 0 else "lib")
            repo = os.path.join(d, "remote", "modules")
            os.makedirs(repo)
            for name in os.listdir(os.path.join(root, "repo%d" % (case["repository"] - 1), "modules")):
                os.symlink(os.path.join(root, "repo%d" % (case["repository"] - 1), "modules", name), os.path.join(repo, name))
            url = "http://127.0.0.1:%d/case%d/remote" % (server.server_address[1], n) if server else "file://" + os.path.dirname(repo)
            prepare(lib, case, u, url)
            # a bystander next to the library and one in the folder the commands run in
            put(d, {"other/kept.txt": "kept", "lib2/Core/kept.txt": "kept", "work/Core/kept.txt": "kept"})
            own(d)

            def remote(k):
                if k:
                    put(repo, {"index.json": json.dumps(index(u, k))})
                elif os.path.exists(os.path.join(repo, "index.json")):
                    os.remove(os.path.join(repo, "index.json"))
            remote(case["start"]["remote"])
            # the library is either named in the environment or the current folder
            here = n % 2 == 0
            try:
                for pc, o in enumerate(case["ops"], 1):
                    if pc not in want[n]:
                        return None
                    answer, inst, lo, hi, cached = want[n][pc]
                    if o["op"] == "publish":
                        remote(o["min"])
                        continue
                    r = slang(command(o), cwd=lib if here else os.path.join(d, "work"), tool="slang-pkg", library=os.path.join(d, "lib2") if here else lib + ":" + os.path.join(d, "lib2"), timeout=20, **NOBODY)
                    if answer == "open":
                        return None
                    bad = "the command does not end" if r.timeout else state(lib, u, inst, lo, hi, cached) or shown(o, r, u, inst, cached)
                    if not bad and r.code < 0:
                        bad = "the command ends with %s" % r.code
                    for k in ("other", "lib2/Core", "work/Core"):
                        if not os.path.exists(os.path.join(d, k, "kept.txt")):
                            bad = "files outside the library are gone: %s" % k
                    if bad:
                        return pc, bad
                return None
            finally:
                shutil.rmtree(d)

        for n, res in enumerate(parallel(one, range(len(cases)))):
            chk.traces += 1
            if res:
                pc, bad = res
                case = cases[n]
                u = repositories[case["repository"] - 1]
                text = "; ".join(" ".join(command(o)) if o["op"] != "publish" else "(index %d)" % o["min"] for o in case["ops"][:pc])
                start = "library %s, restrictions %s, index %s" % (listed(case["start"]["inst"]), restrictions(case["start"]["min"], case["start"]["max"]), case["start"]["cached"])
                chk.violation("%s:%s" % (label, case["ops"][pc - 1]["op"]), "%s: %s: %s: %s" % (label, start, text, bad),
                              {"case.json": json.dumps({"case": case, "repository": u}, indent=1)})
    finally:
        if server:
            server.shutdown()
        shutil.rmtree(root, ignore_errors=True)
    answers = {}
    for w in want.values():
        for a in w.values():
            answers[a[0]] = answers.get(a[0], 0) + 1
    chk.sample({"part": label, "cases": len(cases), "answers": answers})
