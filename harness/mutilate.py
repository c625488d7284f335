"""Programs with tokens removed, doubled, replaced, exchanged or cut off, for S05.

Whether such a program is still correct is left open (SlangModules allows "run" and "rejected"); that it is one of
the two, that both modes agree and that a rejected program executes nothing is not.
"""
import re

import families_fault as F

TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\w+|\s+|==|<=|>=|!=|&&|\|\||\+\+|--|[-+*/%]=|.', re.S)

STATEMENTS = """import System.Collections.List;
import System.Collections.Map;

public interface Shape_ { public int area() const; public string name() const; }
public object Square_ implements Shape_ {
	public int side const;
	private static int count = 0;
	public void Constructor(int s = 1) { side = s; }
	public void Destructor() { print("unused"); }
	public int area() const { return side * side; }
	public string name() const { return "square"; }
	public bool operator==(Square_ other const) const { return side == other.side; }
	public Square_ operator+(Square_ other const) const { return new Square_(side + other.side); }
}
public object Pair_<K, V> {
	public void Constructor(K k, V v) { key = k; value = v; }
	public K first() const { return key; }
	public Pair_<K, V> self() const { return new Pair_<K, V>(key, value); }
	private K key;
	private V value;
}
public object Cube_ extends Square_ {
	public void Constructor(int s) { base.Constructor(s); }
	public int area() const { return 6 * side * side; }
	protected void grow(int by, string why = "none") modify throws {
		if ( by < 0 ) { throw new Exception("negative: " + why); }
		else if ( by == 0 ) { return; }
		else { print("x" + by); }
	}
}
public enum Colour_ { RED = 1, GREEN, BLUE = 7; }
public namespace Outer_ {
	public namespace Inner_ { public int twice(int x) { return 2 * x; } }
	public object Thing_ { public int v = 3; }
}
public int work_(int n, string t, List<int> items, Map<string, int> table) modify throws {
	int sum = 0;
	for ( int i = 0; i < n; i++ ) { if ( i % 2 == 0 ) { continue; } sum += i; }
	while ( sum > 100 ) { sum -= 10; if ( sum == 55 ) { break; } }
	foreach ( int item : items ) { sum = sum + item * (2 - n); }
	switch ( n ) {
		case 1: { sum++; break; }
		case 2: { sum = 2; break; }
		default: { sum = -1; break; }
	}
	try { sum = Outer_.Inner_.twice(sum); print("t"); }
	catch ( Exception e ) { print(e.what()); }
	finally { t = t + "done"; }
	Square_ a = new Square_(2);
	Square_ b = a + new Square_(3);
	var p = new Pair_<int, string>(1, "one");
	bool same = a == b && !(n > 3) || t != "x";
	double d = cast<double>( n ) / 2.5d;
	string text = same ? "yes" : "no";
	Colour_ c = Colour_.GREEN;
	if ( c == Colour_.RED ) { assert(same); }
	if ( a is Shape_ ) { delete a; }
	text = "value {sum}";
	Outer_.Thing_ th = new Outer_.Thing_();
	th.v *= 2;
	return p.first() + th.v + (same ? 1 : 0);
}
"""


def corpus():
    texts = [STATEMENTS, F.CONTEXT]
    texts += [F.suffixed(F.CONTEXT, "c") + F.suffixed(p % "n = 1;", "c") for p in F.PLACES.values()]
    return texts


def mutilated(rng, text):
    t = TOKEN.findall(text)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        w = [j for j, x in enumerate(t) if x.strip()]
        if len(w) < 3:
            break
        j, k = rng.choice(w), rng.random()
        if k < 0.4:
            t[j] = ""
        elif k < 0.55:
            t[j] += " " + t[j]
        elif k < 0.75:
            t[j] = t[rng.choice(w)]
        elif k < 0.93:
            m = rng.choice(w)
            t[j], t[m] = t[m], t[j]
        else:
            t = t[:j]
    return "".join(t)


def single(text):
    """every program with one token left out"""
    t = TOKEN.findall(text)
    return ["".join(t[:j] + t[j + 1:]) for j, x in enumerate(t) if x.strip()]
