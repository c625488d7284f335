"""Shared parts of all checks: building slang, running it, running TLC, evidence and verdicts."""
import fcntl
import hashlib
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLANG_REPO", "/repo")
WORK = os.path.join(VERIF, "_build")
BUILD = os.path.join(WORK, "slang")
SPEC = os.path.join(VERIF, "spec")
LIBRARY = os.path.join(REPO, "Projects", "Library")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = None

DEPS = """# generated by /opt/vp/build.sh
SET( BUILD_CURL_INC "/usr/include" )
SET( BUILD_CURL_LIB "/usr/lib/x86_64-linux-gnu" )
SET( JSON_INCLUDE_DIR "/usr/include/jsoncpp" )
SET( JSON_LIBRARY "/usr/lib/x86_64-linux-gnu/libjsoncpp.so" )
"""

TARGETS = ["slang", "slang-app", "slang-dbg", "slang-pkg"]


class CheckError(Exception):
    """The check itself could not do its work (exit status 2)."""


def binary(name):
    return os.path.join(BUILD, "bin", name, name)


def _sources():
    res = []
    for top in ("CMake", "Projects", "CMakeLists.txt", "version"):
        path = os.path.join(REPO, top)
        if os.path.isfile(path):
            res.append(path)
        for root, dirs, files in os.walk(path):
            dirs.sort()
            if root == os.path.join(REPO, "Projects"):
                dirs[:] = [d for d in dirs if d != "Library"]
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".txt", ".cmake", ".in", ".inl")):
                    res.append(os.path.join(root, f))
    return res


def build():
    """(Re)build the slang tools from the working tree of /repo in /verif/_build/slang."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        deps = os.path.join(REPO, "CMake", "Dependencies.cmake")
        if not os.path.exists(deps) or open(deps).read() != DEPS:
            with open(deps, "w") as f:
                f.write(DEPS)
        hashes = {}
        for p in _sources():
            with open(p, "rb") as f:
                hashes[p] = hashlib.sha256(f.read()).hexdigest()
        stamp = os.path.join(WORK, "sources.json")
        old, built = {}, 0.0
        if os.path.exists(stamp):
            try:
                data = json.load(open(stamp))
                old, built = data["hashes"], data["built"]
            except (ValueError, KeyError):
                pass
        if old == hashes and all(os.path.exists(binary(t)) for t in TARGETS):
            return
        # a file that changed although its time stamp is not newer would be missed by ninja
        stale = any(old.get(p) != h and os.path.getmtime(p) <= built for p, h in hashes.items())
        if os.path.exists(BUILD) and (stale or set(old) != set(hashes)):
            shutil.rmtree(BUILD)
        if os.path.exists(stamp):
            os.remove(stamp)
        begin = time.time()
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        log = os.path.join(WORK, "build.log")
        with open(log, "w") as out:
            if not os.path.exists(os.path.join(BUILD, "build.ninja")):
                if subprocess.call(["cmake", "-S", REPO, "-B", BUILD, "-G", "Ninja", "-DBUILD=Debug"],
                                   stdout=out, stderr=out, env=env):
                    raise CheckError("cmake failed, see " + log)
            if subprocess.call(["ninja", "-C", BUILD] + TARGETS, stdout=out, stderr=out, env=env):
                raise CheckError("build failed, see " + log)
        with open(stamp, "w") as f:
            json.dump({"hashes": hashes, "built": begin}, f)


class Run:
    def __init__(self, out, err, code, timeout):
        self.out, self.err, self.code, self.timeout = out, err, code, timeout

    def lines(self):
        t = self.out
        if t.endswith("\n"):
            t = t[:-1]
        return t.split("\n") if t else []


OUTPUT_LIMIT = 1 << 24
hangs = 0


def limited(cmd, stdin, timeout, **kw):
    """Run a command; it is killed when the time is over or when it has written far more than any program of a check."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    end = time.monotonic() + timeout
    got = {p.stdout: [], p.stderr: []}
    size = 0
    ended = False
    stdin = memoryview(stdin)
    with selectors.DefaultSelector() as sel:
        for f in got:
            sel.register(f, selectors.EVENT_READ)
        if stdin:
            sel.register(p.stdin, selectors.EVENT_WRITE)
        else:
            p.stdin.close()
        while sel.get_map() and size < OUTPUT_LIMIT:
            left = end - time.monotonic()
            if left <= 0:
                break
            for key, _ in sel.select(left):
                f = key.fileobj
                if f is p.stdin:
                    try:
                        stdin = stdin[os.write(f.fileno(), stdin[:4096]):]
                    except BrokenPipeError:
                        stdin = stdin[:0]
                    if not stdin:
                        sel.unregister(f)
                        f.close()
                else:
                    data = os.read(f.fileno(), 65536)
                    if not data:
                        sel.unregister(f)
                    got[f].append(data)
                    size += len(data)
        else:
            ended = size < OUTPUT_LIMIT
    try:
        p.wait(max(0.1, end - time.monotonic()) if ended else 0)
    except subprocess.TimeoutExpired:
        ended = False
        p.kill()
        p.wait()
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            f.close()
        except OSError:
            pass
    out, err = (b"".join(x).decode("utf-8", "replace") for x in got.values())
    return Run(out, err, p.returncode, False) if ended else Run(out[:20000], err[:20000], -1, True)


def slang(args, cwd=None, stdin="", env=None, timeout=20, tool="slang", library=LIBRARY, **kw):
    global hangs
    e = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", "SLANG_LIBRARY": library}
    if env:
        e.update(env)
    for attempt in range(2):
        # many programs that do not end must not keep the check from giving its verdict
        r = limited([binary(tool)] + args, stdin.encode(), timeout if hangs < 6 else timeout / 5, cwd=cwd, env=e, **kw)
        if not r.timeout or hangs >= 6:
            break
    hangs += r.timeout
    return r


def parallel(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as pool:
        return list(pool.map(fn, items))


class Tlc:
    """One run of TLC; .prints holds the tuples printed by the specification."""

    def __init__(self, module, cfg, env=None, workers=8, timeout=600, heap="6g", args=()):
        self.dir = tempfile.mkdtemp(prefix="tlc.")
        cfgfile = os.path.join(self.dir, module + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-cp", classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(self.dir, "states"),
               "-noGenerateSpecTE", "-config", cfgfile] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            self.out, self.code = p.stdout.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired as t:
            raise CheckError("TLC timed out on " + module + "\n" + (t.stdout or b"").decode("utf-8", "replace")[-2000:])
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def expect_ok(self):
        if self.code != 0 or "Error:" in self.out:
            raise CheckError("TLC failed (%d):\n%s" % (self.code, self.out[-6000:]))
        return self

    def tuples(self, tag):
        """All printed tuples <<"tag", ...>> as python lists."""
        return [t[1:] for t in parse_prints(self.out) if t and t[0] == tag]


_cp = None


def classpath():
    global _cp
    if _cp is None:
        jars = [TLA_JAR]
        for root, _, files in os.walk("/opt/veriftools/tla"):
            jars += [os.path.join(root, f) for f in files if "ommunity" in f and f.endswith(".jar")]
        _cp = ":".join(jars)
    return _cp


_tok = re.compile(r'\s*(<<|>>|,|\{|\}|\[|\]|\|->|:>|@@|\(|\)|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z_0-9]*)')


def parse_prints(out):
    """TLC prints tuples over one or several lines; every tuple starts at the beginning of a line."""
    res = []
    i = 0
    while True:
        i = out.find("<<", i)
        if i < 0:
            return res
        if i and out[i - 1] != "\n":
            i += 2
            continue
        try:
            v, j = _value(out, i)
            res.append(v)
            i = j
        except (ValueError, AttributeError):
            i += 2


def _next(out, i):
    m = _tok.match(out, i)
    if not m:
        raise ValueError("bad TLC value")
    return m.group(1), m.end()


def _value(out, i):
    t, i = _next(out, i)
    if t in ("<<", "{"):
        close = ">>" if t == "<<" else "}"
        res = []
        t2, j = _next(out, i)
        if t2 == close:
            return res, j
        while True:
            v, i = _value(out, i)
            res.append(v)
            t2, i = _next(out, i)
            if t2 == close:
                return res, i
            if t2 != ",":
                raise ValueError("bad TLC value")
    if t == "[":
        res = {}
        t2, j = _next(out, i)
        if t2 == "]":
            return res, j
        while True:
            key, i = _next(out, i)
            arrow, i = _next(out, i)
            v, i = _value(out, i)
            res[key] = v
            t2, i = _next(out, i)
            if t2 == "]":
                return res, i
    if t.startswith('"'):
        return json.loads(t), i
    if t in ("TRUE", "FALSE"):
        return t == "TRUE", i
    return int(t), i


class Check:
    """Verdict, known findings and evidence of one check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.start = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.violations = 0
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="slangchk.")
        self.known = load_known(prop)
        self.reported = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, t):
        self.states += t.states
        self.transitions += t.transitions

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, what, files):
        """key identifies the failing input; files: name -> content of the replay directory."""
        if key in self.known:
            if key not in self.reported:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
                self.reported.add(key)
            return
        self.violations += 1
        d = os.path.join(WORK, "replay", self.prop, "%03d" % self.violations)
        if self.violations <= 20:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n, c in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", newline="") as f:
                    f.write(c)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write("key: %s\n%s\n" % (key, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  " + what.replace("\n", "\n  ")[:1500])
            sys.stdout.flush()

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.start, 2), "violations": self.violations}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d transitions, %d runs of slang validated, %d violation(s), %.1f s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.violations, time.time() - self.start))

    def require(self, cond, msg):
        if not cond:
            raise CheckError(msg)


def load_known(prop):
    """known-findings.txt: lines  known: property=<id> key=<key> <text>  (lines starting fixed: suppress nothing)."""
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main(prop, fn, level="model_checking"):
    """Run check function fn(check); exit 0 / 1 / 2."""
    chk = Check(prop, level)
    try:
        shutil.rmtree(os.path.join(WORK, "replay", prop), ignore_errors=True)
        build()
        fn(chk)
        chk.finish()
        if chk.violations:
            return 1
        if chk.traces == 0:
            print("error: nothing was validated")
            return 2
        return 0
    except CheckError as e:
        print("error: %s" % e)
        if chk.violations:
            chk.finish()
            return 1
        return 2
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
