"""Plants the bugs of tools/bugs.py one at a time in /repo, checks that each is a valid one and which checks see it.

usage: plant.py make ID...    write seeded/ID (patch.diff, demo.sh, meta.json) and validate it
       plant.py check ID [P]  run the check of its property (or of properties P,Q,...) with the bug in place
/repo has to be clean; it is restored afterwards."""
import importlib.util
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def load():
    spec = importlib.util.spec_from_file_location("bugs", os.path.join(V, "tools", "bugs.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.BUGS


def restore():
    sh("git -C %s checkout -- ." % REPO)


def apply(b):
    for f, old, new in b["edits"]:
        path = os.path.join(REPO, f)
        s = open(path, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, "%s: %d occurrences in %s of %r" % (b["id"], s.count(old), f, old)
        open(path, "w", newline="").write(s.replace(old, new))


def tests():
    out = "/tmp/plant-tests.json"
    r = sh("bash /opt/vp/test.sh " + out)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    try:
        t = json.load(open(out))
    except ValueError:
        return ["build failed " + r.stdout.decode()[-1500:]]
    return [x for x in base if x not in t["passed"]]


DEMO = """#!/bin/bash
# exits 0 if slang behaves as stated in the property
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cat > "$d/demo.os" <<'EOF'
%s
EOF
cat > "$d/expected" <<'EOF'
%s
EOF
SLANG_LIBRARY="$PWD/Projects/Library" timeout 60 _build/bin/slang/slang "$d/demo.os" %s > "$d/out" 2>/dev/null
rc=$?
cat "$d/out"
[ $rc -eq %d ] || { echo "exit status $rc"; exit 1; }
diff -B "$d/out" "$d/expected"
"""


def demo_text(b):
    if "demo" in b:
        return b["demo"]
    return DEMO % (b["prog"].strip("\n"), b["expect"].strip("\n"), b.get("args", ""), b.get("rc", 0))


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(demo_text(b))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    ok = True
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd=REPO)
    if r.returncode != 0:
        print(b["id"], "DEMO FAILS ON UNCHANGED TREE", r.stdout.decode()[-1500:])
        ok = False
    try:
        apply(b)
        diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
        with open(os.path.join(d, "patch.diff"), "wb") as f:
            f.write(diff)
        broken = tests()
        if broken:
            print(b["id"], "BREAKS TESTS", broken[:8])
            ok = False
        r = sh("bash %s/demo.sh" % d, cwd=REPO)
        if r.returncode == 0:
            print(b["id"], "DEMO PASSES WITH BUG")
            ok = False
    finally:
        restore()
    print(b["id"], "valid" if ok else "INVALID")
    return ok


def check(b, props):
    try:
        r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (REPO, V, b["id"]))
        assert r.returncode == 0, r.stdout
        for p in props:
            t = time.time()
            r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 checks/%s.py" % p, cwd=V)
            out = r.stdout.decode()
            n = out.count("VIOLATION property=%s" % p)
            first = [l for l in out.split("\n") if l.startswith("  ")][:1]
            print("%s: %s exit %d, %d violations, %.0f s %s" % (b["id"], p, r.returncode, n, time.time() - t, (first or [""])[0][:150]))
            if r.returncode not in (0, 1):
                print(out[-1500:])
            sys.stdout.flush()
    finally:
        restore()


if __name__ == "__main__":
    assert not sh("git -C %s status --porcelain" % REPO).stdout, "/repo is not clean"
    bugs = {b["id"]: b for b in load()}
    if sys.argv[1] == "make":
        for i in sys.argv[2:] or [i for i in bugs if not os.path.exists(os.path.join(V, "seeded", i, "patch.diff"))]:
            if make(bugs[i]):
                check(bugs[i], [bugs[i]["property"]])
    else:
        b = bugs[sys.argv[2]]
        check(b, sys.argv[3].split(",") if len(sys.argv) > 3 else [b["property"]])
