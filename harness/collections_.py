"""Collections of the library: SlangCollections.tla says what a history of operations answers (C01)."""
import os

from cases import ask
from common import CheckError, parallel, slang

CFG = "INVARIANT Ascending\nINVARIANT Different\nINVARIANT Between\nINVARIANT OneKeyOnce\nPROPERTY Refused\n"
BATCH = 20

ACTIONS = {"push_back", "push_front", "pop_back", "pop_front", "insert", "erase", "clear", "push", "enqueue", "put", "remove"}


def typename(kind, t):
    if kind == "Map":
        return "Map<%s, %s>" % (t, t)
    if kind == "Range":
        return "Range"
    return "%s<%s>" % ("Set" if kind == "Bag" else kind, t)


def value(t, v):
    return '"s%d"' % v if t == "string" else str(v)


def made(kind, t, start=None):
    if kind == "Range":
        return "new Range(%d, %d, %d)" % tuple(start)
    return "new %s(%s)" % (typename(kind, t), "true" if kind == "Bag" else "")


def statement(kind, t, o):
    """one operation on c"""
    op, a, b = o["op"], o["a"], o["b"]
    if op == "copy":
        return 'o = copy c; print("ok");'
    if op == "swap":
        return 'h = o; o = c; c = h; print("ok");'
    if op == "fresh":
        return 'try { var it = c.getIterator(); print("=" + it.current()); } catch { print("!"); }'
    if op == "over":
        return 'try { var it = c.getIterator(); while ( it.hasNext() ) { it.next(); } it.next(); print("over"); } catch { print("!"); }'
    if op == "again":
        return 'try { var it = c.getIterator(); while ( it.hasNext() ) { it.next(); } it.reset(); it++; print("=" + it.current()); } catch { print("!"); }'
    if op == "current":
        return 'try { var it = c.getIterator(); it.next(); it.next(); print("=" + it.current()); } catch { print("!"); }'
    if op == "sub":
        call = "c[%s]" % (value(t, a) if kind == "Map" else a)
    else:
        if kind == "Map":
            args = {"insert": [value(t, a), value(t, b)], "put": [value(t, a), value(t, b)]}.get(op, [] if op in ("clear", "first", "last") else [value(t, a)])
        elif op == "insert" and kind == "Vector":
            args = [str(a), value(t, b)]
        elif op in ("at", "erase"):
            args = [str(a)]
        elif op in ("push_back", "push_front", "insert", "push", "enqueue", "indexOf", "contains"):
            args = [value(t, a)]
        else:
            args = []
        call = "c.%s(%s)" % (op, ", ".join(args))
    if op in ACTIONS:
        return 'try { %s; print("ok"); } catch { print("!"); }' % call
    return 'try { print("=" + %s); } catch { print("!"); }' % call


def show(kind, t):
    e = "\"\" + p.first + \":\" + p.second" if kind == "Map" else "x"
    head = "Pair<%s, %s> p" % (t, t) if kind == "Map" else "%s x" % t
    text = """private string show(%s c) const throws {
	string r = "" + c.size() + c.empty() + "(";
	foreach ( %s : c ) { r += %s; r += ","; }
""" % (typename(kind, t), head, e)
    if kind == "Range":
        text = text.replace("c.empty()", "( c.size() == 0 )")
    if kind != "Map":
        text += """	r += ")(";
	var it = c.getIterator();
	while ( it.hasNext() ) { r += it.next(); r += ","; }
	r += ")(";
	for ( int i = 0; i < c.size(); i++ ) { r += c.at(i); r += ","; }
"""
    if kind == "Range":
        text += """	r += ")(";
	var back = c.getReverseIterator();
	while ( back.hasNext() ) { r += back.next(); r += ","; }
"""
    return text + """	return r + ")";
}
"""


def program(kind, t, histories, starts):
    ty = typename(kind, t)
    lines = ["import System.Collections.%s;" % ("Set" if kind == "Bag" else kind)]
    # a member makes the type known before it is used for a parameter
    lines.append("public object H {\n\tprivate %s c;\n\tprivate %s o;\n\tprivate %s h;" % (ty, ty, ty))
    if kind != "Range":
        lines.append("\tpublic void Constructor() {\n\t\tc = %s;\n\t\to = %s;\n\t}" % (made(kind, t), made(kind, t)))
    lines.append(show(kind, t))
    for n, h in enumerate(histories):
        lines.append("public void h%d() modify throws {" % n)
        if kind == "Range":
            lines.append("\tc = %s;\n\to = %s;" % (made(kind, t, starts[n]), made(kind, t, starts[n])))
        for o in h:
            lines.append("\t%s\n\tprint(show(c) + show(o));" % statement(kind, t, o))
        lines.append("}")
    lines.append("}")
    lines.append("public int Main(int argc, string args) modify throws {\n%s\n\treturn 0;\n}\n" % "\n".join("\tprint(\"h%d\"); H x%d = new H(); x%d.h%d();" % (n, n, n, n) for n in range(len(histories))))
    return "\n".join(lines)


def shown(kind, t, s):
    v = (lambda x: "s%d" % x) if t == "string" else str
    if kind == "Map":
        return "%d%d(%s)" % (len(s), not s, "".join("%s:%s," % (v(a), v(b)) for a, b in s))
    e = "".join(v(x) + "," for x in s)
    text = "%d%d(%s)(%s)(%s)" % (len(s), not s, e, e, e)
    return text + "(%s)" % "".join(v(x) + "," for x in reversed(s)) if kind == "Range" else text


def expected(kind, t, ops, log):
    out = []
    for o, entry in zip(ops, log):
        r, c, other = entry[0], entry[-2], entry[-1]
        if r == "is":
            v = entry[1]
            out.append("=" + (str(v) if t == "int" or o["op"] in ("indexOf", "contains") else "s%d" % v))
        else:
            out.append(r)
        out.append(shown(kind, t, c) + shown(kind, t, other))
    return out


def check(chk, cases, label):
    """cases: (kind, element type, operations); for ranges also the numbers they are made of"""
    t = ask(chk, "SlangCollections", [{"kind": c[0], "ops": c[2], "from": list(c[3]) if len(c) > 3 else []} for c in cases], CFG)
    logs = [None] * len(cases)
    for k, log in t.tuples("COLL"):
        logs[k - 1] = log
    if any(x is None for x in logs):
        raise CheckError("no answer for some history")
    groups = {}
    for n, (kind, ty) in enumerate(c[:2] for c in cases):
        groups.setdefault((kind, ty), []).append(n)
    batches = [(key, ns[i:i + BATCH]) for key, ns in sorted(groups.items()) for i in range(0, len(ns), BATCH)]

    def one(b):
        (kind, ty), ns = b
        path = os.path.join(chk.scratch, "c%s_%d.os" % (label.replace(" ", ""), ns[0]))
        text = program(kind, ty, [cases[n][2] for n in ns], [cases[n][3:] and cases[n][3] for n in ns])
        with open(path, "w") as f:
            f.write(text)
        r = slang([path], timeout=120)
        os.remove(path)
        return r, text

    for ((kind, ty), ns), (r, text) in zip(batches, parallel(one, batches)):
        parts = {}
        cur = None
        for line in r.lines():
            if line.startswith("h") and line[1:].isdigit():
                cur = parts.setdefault(int(line[1:]), [])
            elif cur is not None:
                cur.append(line)
        for m, n in enumerate(ns):
            chk.traces += 1
            ops = cases[n][2]
            want, got = expected(kind, ty, ops, logs[n]), parts.get(m, [])
            if got == want:
                continue
            if not got and r.code != 0 and any(x not in parts for x in range(m)):
                continue            # an earlier history of the batch ended the program
            at = next((x for x in range(max(len(want), len(got))) if x >= len(got) or x >= len(want) or got[x] != want[x]), 0)
            chk.violation("%s:%s" % (label, kind), "%s: %s, %s: operation %d is answered %r, the specification says %r (status %s %s)"
                          % (label, typename(kind, ty), " ".join("%s(%d,%d)" % (o["op"], o["a"], o["b"]) for o in ops[:at // 2 + 1]), at // 2 + 1,
                             got[at] if at < len(got) else None, want[at] if at < len(want) else None, r.code, r.err[-120:]),
                          {"main.os": program(kind, ty, [ops], [cases[n][3:] and cases[n][3]]), "expected.txt": "h0\n" + "\n".join(want) + "\n"})
    chk.sample({"part": label, "histories": len(cases), "operations": sum(len(c[2]) for c in cases)})


def probes(chk):
    """single points: reverse iterators, inserting a key twice"""
    def one(item):
        key, text, want = item
        path = os.path.join(chk.scratch, "probe_%s.os" % key.replace(":", "_"))
        with open(path, "w") as f:
            f.write(text)
        return slang([path])

    items = []
    for kind, push in (("List", "push_back"), ("Vector", "push_back"), ("DoubleLinkedList", "push_back"), ("Stack", "push"), ("Queue", "enqueue"), ("Set", "insert")):
        items.append(("reverse:" + kind, """import System.Collections.%s;
public void Main(int argc, string args) modify throws {
	var c = new %s<int>();
	c.%s(1); c.%s(2); c.%s(3);
	var it = c.getReverseIterator();
	while ( it.hasNext() ) { print("" + it.next()); }
}
""" % (kind, kind, push, push, push), ["3", "2", "1"]))
    items.append(("twice:Map", """import System.Collections.Map;
public void Main(int argc, string args) modify throws {
	var c = new Map<int, int>();
	try { c.insert(1, 10); c.insert(1, 20); } catch { }
	print("" + c.size());
}
""", ["1"]))
    for (key, text, want), r in zip(items, parallel(one, items)):
        chk.traces += 1
        if r.lines()[:len(want)] != want or r.code != 0:
            chk.violation(key, "%s: prints %r with status %s, expected %r" % (key, r.out[:100], r.code, want), {"main.os": text})
