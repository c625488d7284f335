"""String functions: SlangStrings.tla says what a call returns and what the object holds afterwards (C02)."""
import json
import os

from cases import ask
from common import CheckError, parallel, slang

CFG = "CONSTANT Open = Open\n" + "".join("INVARIANT %s\n" % i for i in ("Splitting", "Finding", "Replacing", "Evaluating", "Cutting", "Ordered", "Cases2"))
BATCH = 150
CHARS = [chr(x) for x in range(32, 127)]

# name: (how it is called, kind of result); %a %b %c are variables, %n %m numbers, x a String
FUNCTIONS = {
    "strlen": ("strlen(%a)", "n"), "substr2": ("substr(%a, %n)", "t"), "substr3": ("substr(%a, %n, %m)", "t"),
    "strfind2": ("strfind(%a, %b)", "n"), "strfind3": ("strfind(%a, %b, %n)", "n"), "strpos": ("strpos(%a, %n)", "t"),
    "strlpad": ("strlpad(%a, %n, %b)", "t"), "strrpad": ("strrpad(%a, %n, %b)", "t"),
    "streval": ("streval(%a)", "t"),
    "strltrim": ("strltrim(%a)", "t"), "strrtrim": ("strrtrim(%a)", "t"), "strtrim": ("strtrim(%a)", "t"),
    "toLower": ("toLower(%a)", "t"), "toUpper": ("toUpper(%a)", "t"),
    "strcat": ("strcat(%a, %b)", "t"), "plus": ("%a + %b", "t"), "strncat": ("strncat(%a, %b, %n)", "t"),
    "strchr": ("strchr(%a, %k)", "t"), "strrchr": ("strrchr(%a, %k)", "t"), "strstr": ("strstr(%a, %b)", "t"), "strpbrk": ("strpbrk(%a, %b)", "t"),
    "strspn": ("strspn(%a, %b)", "n"), "strcspn": ("strcspn(%a, %b)", "n"),
    "strcmp": ("strcmp(%a, %b)", "s"), "strcoll": ("strcoll(%a, %b)", "s"), "strncmp": ("strncmp(%a, %b, %n)", "s"),
    "equal": ("(%a == %b)", "n"), "unequal": ("(%a != %b)", "n"), "less": ("(%a < %b)", "n"), "lessequal": ("(%a <= %b)", "n"),
    "greater": ("(%a > %b)", "n"), "greaterequal": ("(%a >= %b)", "n"),
}
METHODS = {
    "Length": ("x.Length()", "n"), "SubString1": ("x.SubString(%n)", "t"), "SubString2": ("x.SubString(%n, %m)", "t"),
    "IndexOf1": ("x.IndexOf(%b)", "n"), "IndexOf2": ("x.IndexOf(%b, %n)", "n"),
    "ToLower": ("cast<string>( x.ToLower() )", "t"), "ToLowerCase": ("x.ToLowerCase()", "t"),
    "ToUpper": ("cast<string>( x.ToUpper() )", "t"), "ToUpperCase": ("x.ToUpperCase()", "t"),
    "Plus": ("cast<string>( x + %b )", "t"), "PlusString": ("cast<string>( x + y )", "t"),
    "Equal": ("(x == %b)", "n"), "EqualString": ("(x == y)", "n"), "Less": ("(x < %b)", "n"), "LessString": ("(x < y)", "n"),
    "CharAt": ("x.CharAt(%n)", "t"), "Subscript": ("x[%n]", "t"), "Contains": ("x.Contains(%b)", "n"),
    "StartsWith": ("x.StartsWith(%b)", "n"), "EndsWith": ("x.EndsWith(%b)", "n"), "LastIndexOf": ("x.LastIndexOf(%b)", "n"),
    "Replace": ("x.Replace(%b, %c)", "n"), "ReplaceAll": ("x.ReplaceAll(%b, %c)", "n"),
    "TrimLeft0": ("x.TrimLeft()", "t"), "TrimRight0": ("x.TrimRight()", "t"), "Trim": ("x.Trim()", "t"),
    "TrimLeft1": ("x.TrimLeft(%n)", "t"), "TrimRight1": ("x.TrimRight(%n)", "t"),
    "Append": ("cast<string>( x << %b )", "t"), "AppendString": ("cast<string>( x << y )", "t"),
    "Assign": None, "AssignString": None, "Copy": ("cast<string>( copy x )", "t"),
    "RemoveCharAt": None, "Split": None, "SplitBy": None, "Characters": None,
}
ASKED = {  # which arguments the calls have
    "b": {"strfind2", "strcat", "plus", "strstr", "strpbrk", "strspn", "strcspn", "strcmp", "strcoll", "equal", "unequal", "less", "lessequal", "greater", "greaterequal",
          "IndexOf1", "Plus", "PlusString", "Equal", "EqualString", "Less", "LessString", "Contains", "StartsWith", "EndsWith", "LastIndexOf", "Append", "AppendString",
          "Assign", "AssignString", "SplitBy"},
    "bn": {"strfind3", "strncat", "strncmp", "IndexOf2"}, "n": {"substr2", "strpos", "SubString1", "CharAt", "Subscript", "TrimLeft1", "TrimRight1", "RemoveCharAt"},
    "nm": {"substr3", "SubString2"}, "bc": {"Replace", "ReplaceAll"}, "k": {"strchr", "strrchr"}, "kn": {"strlpad", "strrpad"},
}


def quoted(t):
    return '"%s"' % t.replace("\\", "\\\\").replace('"', '\\"')


def call(q):
    """statements that print the result, what the object holds and the arguments"""
    f = q["f"]
    fill = lambda t: t.replace("%a", "a").replace("%b", "b").replace("%c", "c").replace("%n", str(q["n"])).replace("%m", str(q["m"])).replace("%k", str(ord(q["b"][0]) if q["b"] else 0))
    args = 'a = %s; b = %s; c = %s; ' % (quoted(q["a"]), quoted(q["b"]), quoted(q["c"]))
    if f == "streval":
        args += "i = %d; " % q["n"]
    if f in FUNCTIONS:
        text, kind = FUNCTIONS[f]
        if kind == "s":
            return args + 'i = %s; print("" + ((i < 0) ? -1 : ((i > 0) ? 1 : 0)) + "|" + a + "|" + b + "|");' % fill(text)
        if kind == "t":     # the result has to be a text for the type rules, too
            return args + 'r = %s; print(r + "|" + a + "|" + b + "|");' % fill(text)
        return args + 'print("" + %s + "|" + a + "|" + b + "|");' % fill(text)
    rest = ' print("held " + cast<string>( x ) + "|" + x.Length() + "|" + b + "|");'
    new = args + "x = new String( a ); y = new String( b ); "
    if f == "RemoveCharAt":
        body = 'x.RemoveCharAt(%d); print("0");' % q["n"]
    elif f in ("Split", "SplitBy"):
        body = 'r = ""; foreach ( string e : x.%s ) { r += e + "^"; } print(r);' % ("Split()" if f == "Split" else "SplitBy(b)")
    elif f == "Characters":
        body = 'r = ""; foreach ( string e : x ) { r += e + "^"; } print(r);'
    elif f in ("Assign", "AssignString"):
        body = 'x = %s; print(cast<string>( x ));' % ("b" if f == "Assign" else "copy y")
    else:
        body = 'print("" + %s);' % fill(METHODS[f][0])
    return new + "try { " + body + ' } catch { print("!"); }' + rest


def program(calls):
    return "import System.String;\npublic int Main(int argc, string args) modify throws {\n\tstring a; string b; string c; string r; int i; String x; String y;\n%s\n\treturn 0;\n}\n" % \
        "\n".join('\tprint("#%d"); %s' % (n, call(q)) for n, q in enumerate(calls))


def expected(q, r, v):
    text = lambda t: "".join(t)
    if q["f"] in FUNCTIONS:
        return ["%s|%s|%s|" % (r if isinstance(r, int) else text(r), q["a"], q["b"])]
    if r == "!":
        first = "!"
    elif q["f"] in ("Split", "SplitBy", "Characters"):
        first = "".join(text(e) + "^" for e in r)
    else:
        first = str(r) if isinstance(r, int) else text(r)
    held = text(v)
    return [first, "held %s|%d|%s|" % (held, len(held), q["b"])]


def check(chk, calls, label):
    codes = os.path.join(chk.scratch, "codes.json")
    with open(codes, "w") as f:
        json.dump([{"ch": c, "lower": c.lower(), "upper": c.upper()} for c in CHARS], f)
    t = ask(chk, "SlangStrings", [{"f": q["f"], "a": list(q["a"]), "b": list(q["b"]), "c": list(q["c"]), "n": q["n"], "m": q["m"]} for q in calls], CFG, env={"CODES": codes})
    want = {}
    for k, r, v in t.tuples("STR"):
        want[k - 1] = (r, v)
    if len(want) != len(calls):
        raise CheckError("no answer for %d of %d calls, such as %r" % (len(calls) - len(want), len(calls), [calls[n] for n in range(len(calls)) if n not in want][:3]))
    told = [n for n in range(len(calls)) if want[n][0] != "?"]
    batches = [told[i:i + BATCH] for i in range(0, len(told), BATCH)]

    def one(ns):
        path = os.path.join(chk.scratch, "s%s_%d.os" % (label.replace(" ", ""), ns[0]))
        with open(path, "w") as f:
            f.write(program([calls[n] for n in ns]))
        r = slang([path], timeout=20)
        os.remove(path)
        return r

    for ns, r in zip(batches, parallel(one, batches)):
        parts, cur = {}, None
        for line in r.lines():
            if line.startswith("#") and line[1:].isdigit():
                cur = parts.setdefault(int(line[1:]), [])
            elif cur is not None:
                cur.append(line)
        for m, n in enumerate(ns):
            chk.traces += 1
            q = calls[n]
            e = expected(q, *want[n])
            got = parts.get(m)
            if got == e:
                continue
            if got is None and len(parts) and m > max(parts):
                continue            # an earlier call of the batch ended the program
            chk.violation("%s:%s" % (label, q["f"]), "%s: %s of %r, %r, %r, %d, %d gives %r, the specification says %r (status %s %s)"
                          % (label, q["f"], q["a"], q["b"], q["c"], q["n"], q["m"], got, e, r.code, r.err[-100:]),
                          {"main.os": program([q]), "expected.txt": "\n".join(["#0"] + e) + "\n"})
    chk.sample({"part": label, "calls": len(calls), "specified": len(told), "functions": len({q["f"] for q in calls})})
