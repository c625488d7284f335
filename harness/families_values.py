"""Values and routes of conversions for X02."""
import values as V

INT = ["0", "1", "7", "10", "255", "32767", "32768", "65535", "65536", "70000", "16777216", "16777217", "2147483647", "2147483648",
       "4294967295", "4294967296", "4294967297", "5000000000", "1099511627776", "9007199254740992", "9223372036854775807"]
REAL = ["0.0", "0.5", "1.0", "1.5", "2.25", "0.015625", "123.125", "7.75", "32767.5", "32768.0", "65536.0", "16777215.0", "1048576.5",
        "2147483648.0", "4294967296.0"]
DOUBLE = ["0.1", "0.3", "3.14159", "2.71828182845", "0.0000001", "0.0000007", "0.9999999", "0.999999", "1234567.891", "2147483647.5", "123456789.125",
          "4294967297.5", "123456789012345.0", "9.9999996", "99.9999994"]
STRING = ["", " ", "0", "1", "-1", "+5", "007", " 12", "12 ", "12abc", "abc", "-", "+", "1.5", "-0.25", ".5", "5.", "1e3", "25e-1", "1.5E2", "false",
          "FALSE", " False ", "true", "no", "32768", "-32769", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
          "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1 2", "0.5.5", "--1", "+-1",
          "1,000", "\t3", "\tfalse", "f", "falsey", "0.0", "123456789.125", "0.125x", "-.5", "- 5", "3 .5"]


def values():
    for t in V.INTS:
        for x in INT:
            if int(x) >= 1 << {"int16": 15, "int": 31, "int64": 63}[t]:
                yield t, x
                continue
            yield t, x
            if x != "0":
                yield t, "-" + x
    for t in V.REALS:
        for x in REAL + (DOUBLE if t == "double" else []):
            yield t, x
            if set(x) != set("0."):
                yield t, "-" + x
    for x in STRING:
        yield "string", x
    yield "bool", "true"
    yield "bool", "false"


def writable(t, text, how):
    """the ways a literal can be written"""
    if t in ("string", "bool"):
        return True
    if how == "local" and t == "int16" and abs(int(text)) > 2147483647:
        return False                        # no literal of a type that may be assigned
    return True


def single():
    """every value converted to every type in every way"""
    for t, x in values():
        for how in V.starts(t):
            if writable(t, x, how):
                yield t, x, how, []
        for to in V.TYPES:
            for way in V.ways(t, to):
                if writable(t, x, "local"):
                    yield t, x, "local", [(to, way)]


def routes(rng, n, longest=4):
    vs = [v for v in values() if writable(v[0], v[1], "local")]
    for _ in range(n):
        t, x = rng.choice(vs) if rng.random() < 0.4 else fresh(rng)
        how = rng.choice(V.starts(t))
        route, s = [], t
        for _ in range(rng.randint(1, longest)):
            to = rng.choice(V.TYPES)
            route.append((to, rng.choice(V.ways(s, to))))
            s = to
        yield t, x, how, route


def fresh(rng):
    t = rng.choice(V.TYPES)
    if t == "bool":
        return t, rng.choice(["true", "false"])
    if t in V.INTS:
        return t, ("-" if rng.random() < 0.5 else "") + str(1 + rng.getrandbits(rng.choice([4, 15, 16, 17, 24, 31] + ([32, 40, 53, 62] if t == "int64" else []))))
    if t in V.REALS:
        k = rng.randint(0, 6)
        m = 1 + rng.getrandbits(rng.choice([4, 10, 23]) if t == "float" or rng.random() < 0.5 else 30)
        text = ("%.*f" % (max(k, 1), m / 2 ** k))
        if t == "double" and rng.random() < 0.4:
            text = "%d.%0*d" % (rng.getrandbits(rng.choice([3, 10, 20])), rng.randint(1, 7), rng.randint(1, 9))
        return t, text
    n = rng.randint(0, 8)
    return t, "".join(rng.choice("0123456789" if rng.random() < 0.75 else " .-+x") for _ in range(n))
