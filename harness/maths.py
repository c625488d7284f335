"""Mathematical functions: SlangMath.tla says the exact value of a call or of the left side of an equation (N01)."""
import os
from fractions import Fraction

from cases import ask
from common import CheckError, parallel, slang

CFG = "INVARIANT Rounding\nINVARIANT Reduced\nINVARIANT Dividing\nINVARIANT Scaling\n"
BATCH = 120
ONE = ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "fabs", "sqrt", "cbrt", "exp2", "logb", "ilogb", "log2", "log10", "tgamma",
       "lgamma", "sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "expm1", "log1p", "cos", "cosh", "exp", "erfc",
       "acos", "acosh", "log")
TWO = ("fdim", "fmax", "fmin", "fmod", "remainder", "copysign", "hypot", "pow", "ldexp", "scalbn", "atan2", "nextafter", "nexttoward")
# the last digit of these is not specified
ROUNDED = ("cbrt", "hypot", "pow", "exp2", "log2", "log10", "tgamma", "lgamma", "sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf",
           "expm1", "log1p", "cos", "cosh", "exp", "erfc", "acos", "acosh", "log", "atan2")
# left sides; $f the function f for the type at hand, #n the number n, x the argument
LAWS = {
    "asin(sin)": "$asin($sin(x))", "atan(tan)": "$atan($tan(x))", "atan2(sin,cos)": "$atan2($sin(x), $cos(x))", "acos(cos)": "$acos($cos(x))",
    "sin(asin)": "$sin($asin(x))", "cos(acos)": "$cos($acos(x))", "tanh(atanh)": "$tanh($atanh(x))", "tan(atan)": "$tan($atan(x))",
    "sinh(asinh)": "$sinh($asinh(x))", "log(exp)": "$log($exp(x))", "log1p(expm1)": "$log1p($expm1(x))", "log2(exp2)": "$log2($exp2(x))",
    "asinh(sinh)": "$asinh($sinh(x))", "atanh(tanh)": "$atanh($tanh(x))", "acosh(cosh)": "$acosh($cosh(x))", "exp(log)": "$exp($log(x))",
    "exp2(log2)": "$exp2($log2(x))", "pow10(log10)": "$pow(#10, $log10(x))", "sqrt^2": "$sqrt(x) * $sqrt(x)",
    "exp(log/2)^2": "$exp($log(x) / #2) * $exp($log(x) / #2)", "cosh(acosh)": "$cosh($acosh(x))", "cbrt^3": "$cbrt(x) * $cbrt(x) * $cbrt(x)",
    "next up": "$nextafter(x, #100)", "next down": "$nexttoward(x, #0 - #100)", "sin^2+cos^2": "$sin(x) * $sin(x) + $cos(x) * $cos(x)",
    "cosh^2-sinh^2": "$cosh(x) * $cosh(x) - $sinh(x) * $sinh(x)", "exp(x)exp(-x)": "$exp(x) * $exp(#0 - x)", "erf+erfc": "$erf(x) + $erfc(x)",
    "erf slope": "($erf(x + #0.0078125) - $erf(x - #0.0078125)) * #64 * #0.886226925 * $exp(x * x)",
    "sin 2x": "$sin(#2 * x) - #2 * $sin(x) * $cos(x)", "cos 2x": "$cos(#2 * x) - #1 + #2 * $sin(x) * $sin(x)",
    "tan cos - sin": "$tan(x) * $cos(x) - $sin(x)", "sinh by exp": "#2 * $sinh(x) - $exp(x) + $exp(#0 - x)",
    "cosh by exp": "#2 * $cosh(x) - $exp(x) - $exp(#0 - x)", "tanh by sinh": "$tanh(x) * $cosh(x) - $sinh(x)", "erf odd": "$erf(x) + $erf(#0 - x)",
    "expm1 by exp": "$expm1(x) - $exp(x) + #1", "tgamma step": "$tgamma(x + #1) / $tgamma(x)", "lgamma by tgamma": "$lgamma(x) - $log($tgamma(x))",
    "hypot^2": "$hypot(x, x) * $hypot(x, x)", "log1p by log": "$log1p(x) - $log(x + #1)",
}
for g in ("sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "expm1", "log1p"):
    LAWS[g + " small"] = "$%s(x) / x" % g


def num(q, ty):
    """a number of the given type as source text"""
    q = Fraction(q)
    if ty in ("int", "long"):
        return ("cast<int64>( %d )" if ty == "long" else "%d") % q.numerator
    t = "%.16f" % abs(q)
    t = t.rstrip("0")
    return ("-" if q < 0 else "") + (t + "0" if t.endswith(".") else t) + ("d" if ty == "double" else "f")


def text(q):
    """the expression that is computed"""
    ty, f, a = q["ty"], q["f"], q["a"]
    if q["law"]:
        import re
        t = re.sub(r"\$(\w+)", lambda m: m.group(1) + ("f" if ty == "float" else ""), LAWS[f])
        return re.sub(r"#([0-9.]+)", lambda m: num(m.group(1), ty), t)
    if f in ("power", "sqr", "power1"):
        return "Math.%s(%s)" % (f.rstrip("1"), ", ".join(["x"] + ([num(a[1], "int")] if f == "power" else [])))
    name = f + ("f" if ty == "float" and f not in ("abs", "round") and not q["over"] else "")
    return "%s(%s)" % (name, ", ".join(["x"] + [num(v, ty) for v in a[1:]]))


def program(qs):
    s = "import System.Math;\n\n"
    for m, q in enumerate(qs):
        ty = {"long": "int64"}.get(q["ty"], q["ty"])
        s += "private void t%d() throws {\n\t%s x = %s;\n\t%s r = %s;\n" % (m, ty, num(q["a"][0], q["ty"]), ty, text(q))
        w = num(q["want"], q["ty"])
        if q["law"] or q["f"] in ROUNDED:
            # large results have proportionally large errors
            eps = (1 + abs(q["want"])) * (Fraction(1, 400) if "small" in q["f"] or "slope" in q["f"] else
                                          Fraction(1, 200) if q["ty"] == "float" else Fraction(1, 1000000))
            e = num(eps, q["ty"])
            s += "\tprint(\"#%d \" + ((r - (%s)) < %s && ((%s) - r) < %s));\n" % (m, w, e, w, e)
        else:
            s += "\tprint(\"#%d \" + (r == (%s)));\n" % (m, w)
        s += "\tprint(\"x %d \" + (x == (%s)));\n}\n\n" % (m, num(q["a"][0], q["ty"]))
    s += "public int Main(int argc, string args) {\n\ttry {\n"
    s += "".join("\t\tt%d();\n" % m for m in range(len(qs)))
    return s + "\t}\n\tcatch {\n\t\tprint(\"exception\");\n\t}\n\treturn 0;\n}\n"


def check(chk, calls, label):
    def js(x):
        x = Fraction(x)
        return {"n": x.numerator, "d": x.denominator}
    pad = [Fraction(1)] * 2
    t = ask(chk, "SlangMath", [{"f": q["f"], "law": q["law"], "a": [js(x) for x in (list(q["a"]) + pad)[:3]]} for q in calls], CFG)
    want = {k - 1: v for k, v in t.tuples("MATH")}
    if len(want) != len(calls):
        raise CheckError("no answer for %d of %d calls" % (len(calls) - len(want), len(calls)))
    told = []
    for n, q in enumerate(calls):
        if want[n]:
            q["want"] = Fraction(want[n][0]["n"], want[n][0]["d"])
            told.append(q)
    batches = [told[i:i + BATCH] for i in range(0, len(told), BATCH)]

    def one(i):
        path = os.path.join(chk.scratch, "m%d.os" % i)
        with open(path, "w") as f:
            f.write(program(batches[i]))
        r = slang([path])
        os.remove(path)
        return r

    def verdicts(qs, r):
        lines = set(r.lines())
        return ["#%d 1" % m in lines and "x %d 1" % m in lines for m in range(len(qs))]

    for qs, r in zip(batches, parallel(one, range(len(batches)))):
        chk.traces += len(qs)
        if all(verdicts(qs, r)):
            continue
        # alone, so that a call that ends the program does not hide the others
        bad = [q for q, ok in zip(qs, verdicts(qs, r)) if not ok][:30]

        def alone(q):
            path = os.path.join(chk.scratch, "m_%d.os" % id(q))
            with open(path, "w") as f:
                f.write(program([q]))
            return slang([path])
        for q, r1 in zip(bad, parallel(alone, bad)):
            if verdicts([q], r1) == [True]:
                continue
            chk.violation("%s:%s:%s" % (q["ty"], q["f"], ",".join(map(str, q["a"]))),
                          "%s: %s %s with x = %s, the specification says %s (status %s %s)" % (
                              label, q["ty"], text(q), q["a"][0], q["want"], r1.code, (r1.out + r1.err)[-200:]),
                          {"main.os": program([q]), "expected.txt": "#0 1\nx 0 1\n"})
    chk.sample({"part": label, "calls": len(calls), "specified": len(told), "functions": len({q["f"] for q in told}),
                "unspecified": sorted({q["f"] for q in calls} - {q["f"] for q in told})})
