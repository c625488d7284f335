"""The interpreter as a process: SlangProcess.tla says what a command line leads to; slang has to do the same (R01)."""
import os
import re
import shutil

from cases import ask
from common import CheckError, parallel, slang

CFG = "".join("INVARIANT %s\n" % i for i in ("Silent", "Complete", "Status"))

HELPERS = """private void quit(int n) { exit(n); }
private string quitting(int n) { exit(n); return "no"; }
private bool quitbool(int n) { exit(n); return true; }
private int quitint(int n) { exit(n); return 1; }
public object Q {
	private int m;
	public void Constructor(int n) { m = n; }
	public void quit() { exit(m); }
	public Q operator+(int n) { exit(n); return this; }
}
public object QC { public void Constructor(int n) { exit(n); } }
public object QD extends QC { public void Constructor(int n) { base.Constructor(n); print("no"); } }
"""
EXITS = {
    "plain": "exit(%(n)d);",
    "function": "quit(%(n)d);",
    "method": "Q q%(line)d = new Q(%(n)d); q%(line)d.quit();",
    "constructor": "QC q%(line)d = new QC(%(n)d);",
    "base": "QD q%(line)d = new QD(%(n)d);",
    "while": "while ( true ) { exit(%(n)d); print(\"no\"); }",
    "for": "for ( int i%(line)d = 0; i%(line)d < 3; i%(line)d++ ) { exit(%(n)d); print(\"no\"); }",
    "if": "if ( argc > 0 ) { exit(%(n)d); } print(\"no\");",
    "try": "try { exit(%(n)d); } catch ( int e ) { print(\"no\"); } catch { print(\"no\"); } print(\"no\");",
    "tryfunction": "try { quit(%(n)d); } catch ( int e ) { print(\"no\"); } catch { print(\"no\"); } print(\"no\");",
    "catch": "try { throw 1; } catch ( int e ) { exit(%(n)d); } print(\"no\");",
    "switch": "switch ( argc > 0 ) { case true: { exit(%(n)d); } default: { print(\"no\"); break; } } print(\"no\");",
    "print": "print(\"no\" + quitting(%(n)d));",
    "condition": "if ( quitbool(%(n)d) ) { print(\"no\"); } else { print(\"no\"); }",
    "loopcondition": "while ( quitbool(%(n)d) ) { print(\"no\"); }",
    "argument": "print(\"\" + abs(quitint(%(n)d)));",
    "operand": "int x%(line)d = 1 + quitint(%(n)d); print(\"no\");",
    "and": "if ( quitbool(%(n)d) && true ) { print(\"no\"); } print(\"no\");",
    "ternary": "int x%(line)d = quitbool(%(n)d) ? 1 : 2; print(\"no\");",
    "operator": "Q q%(line)d = new Q(1); Q p%(line)d = q%(line)d + %(n)d; print(\"no\");",
    "block": "{ { exit(%(n)d); } }",
    "new": "Q q%(line)d = new Q(quitint(%(n)d)); print(\"no\");",
    "exit": "exit(quitint(%(n)d));",
}


def quoted(t):
    return '"%s"' % t.replace("\\", "\\\\").replace('"', '\\"')


def statement(s):
    a, t = s["a"], quoted(s["t"])
    if a in ("print", "write", "writeln", "cout", "puts", "cerr"):
        return "%s(%s);" % (a, t)
    if a == "putchar":
        return "putchar(%d);" % ord(s["t"])
    if a == "endl":
        return "endl();"
    if a == "args":
        return 'print("" + argc + "[" + args + "]");'
    if a == "cin":
        return 'print("<" + cin() + ">");'
    if a == "getenv":
        return 'print("{" + getenv(%s) + "}");' % t
    if a == "setenv":
        return "setenv(%s, %s, %d);" % (t, quoted(s["v"]), s["n"])
    if a == "putenv":
        return "putenv(%s);" % quoted(s["t"] + "=" + s["v"])
    if a == "return":
        return "return %d;" % s["n"]
    if a == "throw":
        return 'throw "thrown";'
    if a == "fatal":
        return "int z%d; z%d = 1 / z%d;" % (s["line"], s["line"], s["line"])
    if a == "exit":
        return EXITS[s["how"]] % s
    raise ValueError(a)


def program(prog, kind, helpers=True):
    """the text; sets the lines of the statements"""
    head = (HELPERS if helpers else "").split("\n")
    lines = head + ["public %s Main(int argc, string args) modify throws {" % kind]
    for s in prog:
        s["line"] = len(lines) + 1
        lines.append("\t" + statement(s))
    if kind == "int" and not (prog and prog[-1]["a"] == "return"):
        lines.append("\treturn 0;")
    return "\n".join(lines + ["}", ""])


def check(chk, cases, label):
    """cases: dicts argv, good, bad (names of scripts), prog, kind, input, env"""
    for c in cases:
        c["text"] = program(c["prog"], c["kind"])
    t = ask(chk, "SlangProcess", [{"argv": c["argv"], "files": [[n, "good"] for n in c["good"]] + [[n, "bad"] for n in c["bad"]],
                                   "prog": [{"a": s["a"], "t": s["t"], "n": s.get("n", 0), "v": s.get("v", ""), "line": s["line"]} for s in c["prog"]],
                                   "input": [x.strip(" \t") if not x.strip() else x.lstrip(" \t") for x in c["input"]],
                                   "env": [[n, v] for n, v in c["env"].items()]} for c in cases], CFG)
    want = [None] * len(cases)
    for k, out, err, status, script in t.tuples("PROC"):
        want[k - 1] = (out, err, status, script)
    if any(w is None for w in want):
        raise CheckError("no result for some command line")

    def one(n):
        c = cases[n]
        folder = os.path.join(chk.scratch, "p%s_%d" % (label.replace(" ", ""), n))
        os.makedirs(os.path.join(folder, "sub"))
        for name in c["good"] + c["bad"]:
            with open(os.path.join(folder, name), "w") as f:
                f.write(c["text"] if name in c["good"] else c["text"].replace("Main(int argc", "Main(int argc argc"))
        r = slang(c["argv"], cwd=folder, stdin="".join(x + "\n" for x in c["input"]), env=c["env"])
        shutil.rmtree(folder)
        return r, os.path.realpath(folder)

    for n, (r, folder) in zip(range(len(cases)), parallel(one, range(len(cases)))):
        c, (out, err, status, script) = cases[n], want[n]
        chk.traces += 1
        got = r.out
        # remarks and warnings about the program are not part of its output
        r.err = "".join(x for x in r.err.splitlines(True) if not re.match(r"\[(INFO|WARN|DEBUG)", x))
        if script:
            full = os.path.realpath(os.path.join(folder, script))
            got = re.sub(re.escape("[") + r"[^\]\n]*" + re.escape(os.path.basename(full)) + r":(\d+)\]", r"[\1]", got)
        opts = set(c["argv"])
        printing = status == 0 and not out and (not script or opts & {"--tokens", "--debug", "--version", "-h", "--help"})
        if status == -2:
            continue                    # tokens of a text that does not compile
        if printing or status == 255 and not script:
            ok = "no" not in got.split("\n") and not any(s["t"] in got.split("\n") for s in c["prog"] if s["a"] == "print" and len(s["t"]) > 2)
        elif status == 255:
            ok = got == out or got.startswith(out) and got[len(out):].startswith("Stack trace:")
        else:
            ok = got == out and r.err == err
        if r.code != status or not ok or not r.err.startswith(err) and status != 255:
            chk.violation("process:%s:%d" % (label, n), "%s: slang %s ends with status %s and %r, the specification says %d and %r (stderr %r, expected %r)"
                          % (label, " ".join(c["argv"]), r.code, got[-200:], status, out[-200:], r.err[-150:], err[-100:]),
                          {"main.os": c["text"], "argv.txt": "\n".join(c["argv"]) + "\n", "input.txt": "".join(x + "\n" for x in c["input"])})
    st = {}
    for w in want:
        st[w[2]] = st.get(w[2], 0) + 1
    chk.sample({"part": label, "command lines": len(cases), "different statuses": len(st)})
