"""Faults and the places of a program where they may be (S05).

A fault is a text that is wrong by the lexical, syntactic or static rules: a statement, a member of a class or a declaration of a file."""
import itertools
import re

from modules import case

# statements that are wrong anywhere; int n, string t and object Q_ q are visible
STATEMENTS = [
    # lexical
    ("lex-char", "n = 1 $ 2;"), ("lex-char2", "n = ` 1;"), ("lex-string", 't = "open;'), ("lex-string2", 't = "a" + "b;'),
    ("lex-comment", "n = 1; /* open"), ("lex-number", "n = 1x;"), ("number-word", "n = 1 x;"), ("number-member", "n = 1.x;"), ("lex-number2", "n = 1.2.3;"), ("lex-backslash", "n = 1 \\ 2;"),
    # brackets
    ("paren-open", "n = (1 + 2;"), ("paren-close", "n = 1 + 2);"), ("brace-open", "if (n == 1) {"), ("brace-close", "n = 1; }"), ("bracket", "n = [1;"),
    ("cross", "n = (1 + [2); ]"), ("call-open", "f_(1;"),
    # syntax
    ("operand", "n = 1 +;"), ("operand2", "n = * 2;"), ("two-values", "n = 1 2;"), ("two-names", "n = n n;"), ("two-names2", "f_(n n);"), ("value-keyword", "q = q new Q_();"), ("value-string", "t = t \"a\";"), ("two-ops", "n = 1 * / 2;"), ("assign-nothing", "n = ;"),
    ("if-paren", "if n == 1 { n = 2; }"), ("if-empty", "if () { n = 2; }"), ("else-alone", "else { n = 2; }"), ("while-empty", "while () { n = 2; }"), ("for-two", "for (n = 0; n < 3) { n++; }"),
    ("for-empty", "for () { n = 1; }"), ("foreach-type", "foreach (x : t) { n = 1; }"), ("switch-open", "switch { case 1: { break; } }"), ("case-alone", "case 1: { n = 2; }"),
    ("switch-two-defaults", "switch (n) { default: { break; } default: { break; } }"), ("switch-statement", "switch (n) { n = 2; }"),
    ("catch-alone", "catch { n = 2; }"), ("try-alone", "try n = 2;"), ("decl-name", "int = 3;"), ("decl-two", "int a b;"), ("decl-number", "int 5;"), ("decl-keyword", "int while;"),
    ("literal", "5;"), ("string-statement", '"abc";'), ("scope-end", "q.;"), ("scope-start", ".v = 1;"), ("cast-open", "n = cast<int(t);"), ("cast-type", "n = cast<>(t);"), ("new-nothing", "q = new ;"),
    ("ternary", "n = n == 1 ? 2;"), ("ternary2", "n = n == 1 : 2;"), ("args", "f_(1 2);"), ("args-start", "f_(, 1);"), ("type-args", "G_<int(> g;"), ("cast-nested", "n = cast<G_<int>(t);"), ("is-nothing", "bool b = q is ;"),
    ("return-two", "return 1 2;"), ("throw-two", "throw 1 2;"), ("typeid-open", "t = typeid;"), ("print-open", 'print "a";'), ("assert-empty", "assert();"),
    # names
    ("name", "n = nobody;"), ("name-call", "nobody();"), ("name-type", "Nobody x;"), ("name-member", "n = q.nobody;"), ("name-method", "q.nobody();"), ("name-new", "q = new Nobody();"),
    ("name-write", "nobody = 1;"), ("name-cast", "q = cast<Nobody>(q);"), ("name-is", "bool b = q is Nobody;"), ("name-scope", "{ int inner = 1; } n = inner;"), ("name-twice", "int d; int d;"),
    ("name-foreach", "foreach (int x : nobody) { n = x; }"), ("name-enum", "n = E_.NOBODY;"), ("name-namespace", "n = Nobody.x;"),
    # types
    ("type-init", 'int x = "a";'), ("type-assign", 'n = "a";'), ("type-object", "n = q;"), ("type-object2", "q = 1;"), ("type-arg", 'f_("a");'), ("type-count", "f_();"), ("type-count2", "f_(1, 2);"),
    ("type-operator", 'bool b = q + 1;'), ("type-ret", "n = v_();"), ("type-new", "q = new Q_(1, 2, 3);"),
    # constants and visibility
    ("const", "int x const = 1; x = 2;"), ("const-inc", "int x const = 1; x++;"), ("private", "n = q.p;"), ("private-call", "q.pm();"), ("protected", "n = q.r;"),
    # control flow
    ("break", "break;"), ("continue", "continue;"), ("throw", "throw new Q_();"),
    ("interface", "I_ i = new I_();"), ("namespace-value", "n = N_;"), ("type-value", "n = Q_;"),
]

# members of a class
MEMBERS = [
    ("member-type", "public Nobody x;"), ("member-name", "public int;"), ("member-init", "public int x = \"a\" + 1;"), ("member-twice", "public int x; public int x;"), ("member-semicolon", "public int x public int y;"),
    ("method-type", "public Nobody m();"), ("method-twice", "public void m() { } public void m() { }"), ("method-param2", "public void m(Nobody x) { }"),
    ("method-param-twice", "public void m(int x, int x) { }"), ("method-body", "public void m()"), ("method-abstract", "public abstract void m() { }"), ("method-noreturn", "public int m() { }"),
    ("method-open", "public void m( { }"), ("method-return", "public void m() { return 1; }"), ("method-return2", "public int m() { return; }"), ("method-return3", "public int m() { return \"a\"; }"),
    ("method-const", "public int x; public void m() const { x = 1; }"), ("statement", "print(1);"), ("namespace", "namespace Z_ { }"),
]

# declarations of a file
TOPLEVEL = [
    ("object-name", "public object { }"), ("object-base", "public object Z_ extends Nobody { }"), ("object-interface", "public object Z_ implements Nobody { }"), ("object-open", "public object Z_ {"),
    ("object-twice", "public object Z_ { } public object Z_ { }"),
    ("enum-name", "public enum { A; }"), ("enum-empty", "public enum Z_ { }"), ("enum-order", "public enum Z_ { A = 2, B = 1; }"), ("enum-comma", "public enum Z_ { A B; }"), ("enum-value", "public enum Z_ { A = , B; }"),
    ("namespace-open", "namespace Z_ {"), ("interface-body", "public interface Z_ { void m() { } }"), ("statement", "print(1);"), ("statement2", "if (true) { }"),
    ("assign", "g_ = 1;"), ("import", "import ;"), ("import2", "import Nobody;"), ("import3", "import A B;"), ("word", "nonsense"), ("words", "nonsense nonsense;"), ("number", "5;"), ("brace", "}"), ("string", "\"abc\";"),
    ("function-twice", "public void z_() { } public void z_() { }"), ("function-type", "public Nobody z_() { }"), ("function-open", "public void z_(int { }"), ("function-body", "public void z_();"),
    ("variable-type", "public Nobody z_;"), ("variable-init", "public int z_ = ;"), ("variable-twice", "public int z_; public int z_;"), ("lex-string", "public string z_ = \"open;"), ("lex-char", "$"),
    ("eof-string", "\"open"), ("eof-comment", "/* open"), ("eof-comment2", "/*/"), ("visibility", "public public int z_;"), ("visibility-alone", "public"), ("extends-self", "public object Z_ extends Z_ { }"),
]

# what the faults refer to
CONTEXT = """public interface I_ { int im() const; }
public abstract object A_ { public abstract int am() const; }
public final object F_ { public int x; }
public enum E_ { ONE, TWO; }
public namespace N_ { public int x; }
public object Q_ {
	public int v;
	public int c const = 1;
	private int p;
	protected int r;
	public void Constructor() { v = 1; }
	private void pm() { print("unused"); }
	public final int fm() const { return 1; }
}
public object G_<T> { public T x; }
public int g_;
public int f_(int x) { return x; }
public void v_() { print("unused"); }
public void th_() throws { throw new Q_(); }
"""

PRE = "int n; string t; Q_ q = new Q_();\n"

# places of statements: code around %s; nothing of it is ever executed
PLACES = {
    "function": "public void u_() { " + PRE + "%s\n}\n",
    "function-first": "public void u_() { " + PRE + "%s\nn = 1; print(t); }\n",
    "private-function": "private void u_() { " + PRE + "%s\n}\n",
    "function-int": "public int u_() { " + PRE + "if (n == 1) {\n%s\n}\nreturn 1; }\n",
    "method": "public object U_ { public void m() { " + PRE + "%s\n} }\n",
    "private-method": "public object U_ { private void m() const { " + PRE + "%s\n} }\n",
    "protected-method": "public object U_ { protected int m() modify { " + PRE + "if (false) {\n%s\n}\nreturn 1; } }\n",
    "static-method": "public object U_ { public static void m() { " + PRE + "%s\n} }\n",
    "second-method": "public object U_ { public void m() { print(1); } public void m2() { " + PRE + "%s\n} public void m3() { print(1); } }\n",
    "constructor": "public object U_ { public void Constructor() { " + PRE + "%s\n} }\n",
    "destructor": "public object U_ { public void Destructor() { " + PRE + "%s\n} }\n",
    "operator": "public object U_ { public U_ operator+(U_ other) const { " + PRE + "if (false) {\n%s\n}\nreturn new U_(); } }\n",
    "abstract-class": "public abstract object U_ { public abstract void a(); public void m() { " + PRE + "%s\n} }\n",
    "private-class": "private object U_ { public void m() { " + PRE + "%s\n} }\n",
    "derived-class": "public object B_ { public void k() { print(1); } }\npublic object U_ extends B_ { public void m() { " + PRE + "%s\n} }\n",
    "namespace-function": "public namespace M_ { public void u_() { " + PRE + "%s\n} }\n",
    "namespace-class": "public namespace M_ { public object U_ { public void m() { " + PRE + "%s\n} } }\n",
    "namespace-nested": "public namespace M_ { public namespace M2_ { public void u_() { " + PRE + "%s\n} } }\n",
    "inner-class": "public object U_ { public object V_ { public void m() { " + PRE + "%s\n} } }\n",
    "block": "public void u_() { " + PRE + "{ {\n%s\n} } }\n",
    "if": "public void u_() { " + PRE + "if (n == 1) {\n%s\n} }\n",
    "else": "public void u_() { " + PRE + "if (n == 1) { n = 2; } else {\n%s\n} }\n",
    "while": "public void u_() { " + PRE + "while (n == 1) {\n%s\n} }\n",
    "for": "public void u_() { " + PRE + "for (int i = 0; i < 1; i++) {\n%s\n} }\n",
    "case": "public void u_() { " + PRE + "switch (n) { case 1: {\n%s\nbreak; } default: { break; } } }\n",
    "default": "public void u_() { " + PRE + "switch (n) { case 1: { break; } default: {\n%s\nbreak; } } }\n",
    "try": "public void u_() { " + PRE + "try {\n%s\n} finally { n = 1; } }\n",
    "catch": "public void u_() { " + PRE + "try { n = 1; } catch {\n%s\n} }\n",
    "finally": "public void u_() { " + PRE + "try { n = 1; } finally {\n%s\n} }\n",
}
# faults of statements that are none at some places
NOT_AT = {
    "break": ("while", "for", "case", "default"), "continue": ("while", "for", "case", "default"), "throw": ("try",),
}

MEMBER_PLACES = {
    "object": "public object U_ { %s\n}\n",
    "object-more": "public object U_ { public int first; %s\npublic int last; public void k() { print(1); } }\n",
    "private-object": "private object U_ { %s\n}\n",
    "derived": "public object U_ extends Q_ { %s\n}\n",
    "namespace": "public namespace M_ { public object U_ { %s\n} }\n",
    "inner": "public object U_ { public object V_ { %s\n} }\n",
}

TOP_PLACES = {
    "file": "%s\n",
    "end": "%s",                # if it is the last of the file: without a line break
    "namespace": "public namespace M_ { %s\n}\n",
}


def faults():
    """(name, text of a declaration that contains one fault)"""
    for n, t in STATEMENTS:
        for p, code in PLACES.items():
            if p not in NOT_AT.get(n, ()):
                yield "%s@%s" % (n, p), code % t
    for n, t in MEMBERS:
        for p, code in MEMBER_PLACES.items():
            yield "member/%s@%s" % (n, p), code % t
    for n, t in TOPLEVEL:
        for p, code in TOP_PLACES.items():
            yield "top/%s@%s" % (n, p), code % t


def suffixed(text, suffix):
    """the names of the text made different from those of other files"""
    return re.sub(r"\b([A-Za-z0-9]+)_\b", r"\1_" + suffix, text)


def layouts():
    """import graphs of the main file and two modules, and which of them contain faults"""
    for a, b, m in itertools.product(([], ["B"]), ([], ["A"]), ([], ["A"], ["B"], ["A", "B"], ["B", "A"])):
        for place in ("S", "L"):
            for bad in ((), ("m",), ("A",), ("B",), ("m", "A"), ("A", "B")):
                files = {place + "/A.os": a, place + "/B.os": b, "S/main.os": m}
                faults = {("S/main.os" if x == "m" else "%s/%s.os" % (place, x)): "load" for x in bad}
                yield "%s/A>%s/B>%s/main>%s/fault-in-%s" % (place, "".join(a), "".join(b), "".join(m), "+".join(bad) or "none"), case(files, "S/main.os", ["L"], faults)
