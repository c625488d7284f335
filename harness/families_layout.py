"""Texts and layouts (X01)."""
import itertools
import re

ALPHABET = "a\"\\/*# \n"
WIDE = "ab1.\"\\/*# \n\t\r=!<>&|+-%[]();,{}?:~"


def short(n, alphabet=ALPHABET):
    return ["".join(t) for t in itertools.product(alphabet, repeat=n)]


def strings():
    """every character and every pair of characters in a string"""
    chars = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\r"]
    for c in chars:
        yield '"%s"' % (("\\" + c) if c in "\"\\" else c)
        yield '"a%sb"' % (("\\" + c) if c in "\"\\" else c)
        yield '"\\%s"' % c
        yield 'x = "a\\%sb" + "%s";' % (c, "\\" + c if c in "\"\\" else c)
    for a, b in itertools.product("\"\\/*#n'", repeat=2):
        yield '"%s%s"' % ("\\" + a, "\\" + b)
        yield '"%s" + "%s"' % ("\\" + a, "\\" + b)


GAPS = [" ", "\t", "\n", "\r\n", "  \n\t ", "/**/", "/* c */", "/***/", "/*/*/", "/* // */", "/* \" */", "/*\n*\n/ */", "// c\n", "//\n", "///* \n", "// \"\n", "#c\n", "# \" /*\n", "/*a*//*b*/", "/*a*/ /*b*/", "/*a*///b\n", "//a\n//b\n", "#\n#\n", " /* ; } */ ", "\n\n\n", "//*\n", "/*#*/", "/* * / */", "# // /*\n"]

WORD = re.compile(r'"(?:[^"\\]|\\.)*"|\d+(?:\.\d+)?[dfi]?|[A-Za-z_]\w*|\S')
JOIN = re.compile(r'^[A-Za-z_0-9]')
OPS = ("&&", "||", "!&", "!|", "..", "--", "++", "<<", ">>", "[]", "===", "!==", "==", "&=", "|=", "!=", ">=", "<=", "+=", "/=", "%=", "*=", "-=")


def pieces(text):
    """tokens of a program without comments, as they are written"""
    return WORD.findall(text)


def gap_needed(a, b):
    """words have to be kept apart; so have characters that would start a comment"""
    return bool(JOIN.match(a) and JOIN.match(b)) or (a == "/" and b in "/*")


def relayout(rng, ps, density, gaps=GAPS):
    out = []
    for a, b in zip(ps, ps[1:] + [""]):
        out.append(a)
        if not b:
            break
        if rng.random() < density:
            g = rng.choice(gaps)
            if a == "/" and g[0] in "/*":
                g = " " + g
            out.append(g)
        elif gap_needed(a, b):
            out.append(" ")
    out.append(rng.choice(["", "\n", " ", "// end", "/* end */", "#"]))
    return "".join(out)


def everywhere(ps, g):
    """the same gap between all tokens"""
    return "".join(p + ((" " if p == "/" and g[0] in "/*" else "") + g) for p in ps)


def at(ps, i, g):
    """gap g between tokens i and i + 1, as little as possible elsewhere"""
    out = []
    for j, a in enumerate(ps):
        out.append(a)
        if j == i:
            out.append((" " if a == "/" and g[0] in "/*" else "") + g)
        elif j + 1 < len(ps) and gap_needed(a, ps[j + 1]):
            out.append(" ")
    return "".join(out)


PROGRAMS = ["""
import System.Collections.Range;
public enum Col { RED, BLUE = 4; }
public interface I { int get() const; }
public abstract object A implements I { protected int v = 3; public abstract string name() const; }
public object B extends A implements I {
	public void Constructor(int x = 2) { v = x; }
	public int get() const { return v; }
	public string name() const { return "B/*x*/"; }
	public bool operator==(B other const ref) const { return v == other.v; }
}
public string f(string s, int n = 1) const {
	if (n == 0) { return"zero"; }
	else if (n == 2) return "two"; else { return s + " // " + "# " + "\\"q\\"\\\\"; }
}
public int Main(int argc, string args) modify throws {
	B b = new B(5); B c = new B();
	print(b.name() + f("s") + f("t", 0) + f("", 2));
	print(cast<string>((b == c))); print(cast<string>(b.get()));
	for (int i = 0; i < 3; i++) { if (i == 1) { continue; } print(cast<string>(i)); }
	int k = 10; while (k >= 8) { k -= 1; }
	switch (k) { case 7: { print("seven"); break; } default: { print("other"); break; } }
	try { throw "oops"; } catch (string e) { print("caught " + e); } finally { print("finally"); }
	k = k * 2 / 1 - 3; k += 2; k *= 2; k /= 2; k %= 100;
	print(cast<string>(k)); print(cast<string>((k > 3 && k != 4 || !(k <= 2))));
	print(cast<string>((k == 4 ? 1 : 2))); float x = 1.5f; double y = 2.25d; print(cast<string>((x * 2f))); print(cast<string>(y));
	print(typeid(b)); print(cast<string>(cast<int>("12"))); Col col = Col.BLUE; print(int col);
	foreach (int q : 1..3) { print(cast<string>(q)); }
	assert(k == k); delete c;
	print("end"); return 7;
}
""", """
import System.String;
public namespace N { public namespace M { public int x = 4; public int twice(int a const) const { return a * 2; } } }
private object Box<T> { private T mV; public void Constructor(T v) { mV = v; } public T get() const { return mV; } }
public void swap(int a ref, int b ref) { int t = a; a = b; b = t; }
public int Main(int argc, string args) modify throws {
	int a = 1; int b = 2; swap(a, b); print(cast<string>(a) + cast<string>(b));
	Box<int> box = new Box<int>(3); print(cast<string>(box.get()));
	String s = new String("a b"); print(cast<string>(s.Length())); print(s.ToUpperCase());
	print(cast<string>(N.M.twice(N.M.x))); var v = 5; print(cast<string>(v++)); print(cast<string>((v & 3 | 8)));
	bool t = a == 2 && !(b == 3); print(cast<string>(t)); if (t) { print("yes"); }
	string name = "x" ; name += "y//"; print(name); do_it(); print("end"); return 0;
}
private void do_it() const { try { int z = 1; print("in " + z); } finally { print("out"); } }
"""]
