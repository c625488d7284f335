------------------------------ MODULE SlangMath ------------------------------
(***************************************************************************)
(* The mathematical functions.  Numbers are exact fractions [n, d] with    *)
(* d > 0 and no common divisor; the cases use few digits, so that float    *)
(* and double represent every argument and result of the exact functions.  *)
(* A case is a call [f, a]: name and arguments.  Functions whose results   *)
(* are irrational are specified by the places where they are not and by    *)
(* the equations they obey; an equation is a case as well: its name stands *)
(* for the left side, the answer is the right side.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, st
vars == <<k, st>>

Q == Cases[k]
Init == k \in 1..Len(Cases) /\ st = "asked"

----------------------------------------------------------------------------
(* Fractions                                                               *)
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == LET g == Gcd(Abs(n), Abs(d))
                s == IF d < 0 THEN -1 ELSE 1
            IN [n |-> s * (n \div g), d |-> s * (d \div g)]
I(n) == [n |-> n, d |-> 1]
Add(x, y) == Fr(x.n * y.d + y.n * x.d, x.d * y.d)
Neg(x) == [x EXCEPT !.n = -@]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Fr(x.n * y.n, x.d * y.d)
Inv(x) == Fr(x.d, x.n)
Div(x, y) == Mul(x, Inv(y))
Less(x, y) == x.n * y.d < y.n * x.d
Leq(x, y) == ~Less(y, x)
Zero == I(0)
One == I(1)
Two == I(2)
AbsF(x) == [x EXCEPT !.n = Abs(@)]

Floor(x) == x.n \div x.d                 \* towards minus infinity in TLA+
Ceil(x) == -((-x.n) \div x.d)
Trunc(x) == IF x.n < 0 THEN Ceil(x) ELSE Floor(x)
\* nearest whole number, halves away from zero / to the even neighbour
Round(x) == IF x.n < 0 THEN -Floor(Add(AbsF(x), Fr(1, 2))) ELSE Floor(Add(x, Fr(1, 2)))
Even(x) == LET f == Floor(x)
               r == Sub(x, I(f))
           IN IF Less(r, Fr(1, 2)) \/ (r = Fr(1, 2) /\ f % 2 = 0) THEN f ELSE f + 1

RECURSIVE Power(_, _)
Power(x, n) == IF n < 0 THEN Inv(Power(x, -n)) ELSE IF n = 0 THEN One ELSE Mul(x, Power(x, n - 1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* whole roots, -1 if there is none
Root(n, e) == LET S == {r \in 0..(IF n < 200 THEN n ELSE 200) : Power(I(r), e) = I(n)} IN IF S = {} THEN -1 ELSE CHOOSE r \in S : TRUE
RootF(x, e) == <<Root(x.n, e), Root(x.d, e)>>
\* the exponent e with b^e <= x < b^(e+1), x > 0
RECURSIVE Exponent(_, _)
Exponent(x, b) == IF Less(x, One) THEN Exponent(Mul(x, I(b)), b) - 1
                  ELSE IF Leq(I(b), x) THEN Exponent(Div(x, I(b)), b) + 1 ELSE 0

----------------------------------------------------------------------------
(* Answers: a fraction, or none where nothing is specified                 *)
None == <<>>
Only(c, v) == IF c THEN <<v>> ELSE None
Is(v) == <<v>>

Exact(f, a) ==
  LET x == a[1]
      y == a[2]
      z == a[3]
      whole == y.d = 1
  IN CASE f = "floor" -> Is(I(Floor(x)))
       [] f = "ceil" -> Is(I(Ceil(x)))
       [] f = "trunc" -> Is(I(Trunc(x)))
       [] f = "round" -> Is(I(Round(x)))
       [] f \in {"rint", "nearbyint"} -> Is(I(Even(x)))
       [] f \in {"fabs", "abs", "labs"} -> Is(AbsF(x))
       [] f = "fdim" -> Is(IF Less(y, x) THEN Sub(x, y) ELSE Zero)
       [] f = "fmax" -> Is(IF Less(x, y) THEN y ELSE x)
       [] f = "fmin" -> Is(IF Less(x, y) THEN x ELSE y)
       [] f = "fmod" -> Only(y # Zero, Sub(x, Mul(y, I(Trunc(Div(x, y))))))
       [] f = "remainder" -> Only(y # Zero, Sub(x, Mul(y, I(Even(Div(x, y))))))
       [] f = "copysign" -> Is(IF y.n < 0 THEN Neg(AbsF(x)) ELSE AbsF(x))
       [] f = "fma" -> Is(Add(Mul(x, y), z))
       [] f = "hypot" -> LET r == RootF(Add(Mul(x, x), Mul(y, y)), 2) IN Only(r[1] >= 0 /\ r[2] >= 0, Fr(r[1], r[2]))
       [] f = "sqrt" -> IF x.n < 0 THEN None ELSE LET r == RootF(x, 2) IN Only(r[1] >= 0 /\ r[2] >= 0, Fr(r[1], r[2]))
       [] f = "cbrt" -> LET r == RootF(AbsF(x), 3)
                        IN Only(r[1] >= 0 /\ r[2] >= 0, IF x.n < 0 THEN Neg(Fr(r[1], r[2])) ELSE Fr(r[1], r[2]))
       [] f = "pow" -> Only(whole /\ (x # Zero \/ y.n >= 0), Power(x, y.n))
       [] f = "powl" -> Only(y.n >= 0, Power(x, y.n))
       [] f = "power" -> Only(y.n >= 0, Power(x, y.n))
       [] f \in {"power1", "sqr"} -> Is(Mul(x, x))
       [] f = "exp2" -> Only(x.d = 1, Power(Two, x.n))
       [] f \in {"ldexp", "scalbn"} -> Only(whole, Mul(x, Power(Two, y.n)))
       [] f \in {"logb", "ilogb"} -> Only(x # Zero, I(Exponent(AbsF(x), 2)))
       [] f = "log2" -> IF x.n <= 0 THEN None ELSE LET e == Exponent(x, 2) IN Only(Power(Two, e) = x, I(e))
       [] f = "log10" -> IF x.n <= 0 THEN None ELSE LET e == Exponent(x, 10) IN Only(Power(I(10), e) = x, I(e))
       [] f = "tgamma" -> Only(x.d = 1 /\ x.n > 0, I(Fact(x.n - 1)))
       [] f = "lgamma" -> Only(x \in {One, Two}, Zero)
       [] f \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "expm1", "log1p"} -> Only(x = Zero, Zero)
       [] f \in {"cos", "cosh", "exp", "erfc"} -> Only(x = Zero, One)
       [] f \in {"acos", "acosh", "log"} -> Only(x = One, Zero)
       [] f = "atan2" -> Only(x = Zero /\ y.n > 0, Zero)
       [] f \in {"nextafter", "nexttoward"} -> Only(x = y, x)
       [] OTHER -> None

(* Left sides that are the identity, the absolute value or a constant of   *)
(* their argument, with the range in which they are.                       *)
In(x, lo, hi) == Leq(lo, x) /\ Leq(x, hi)
Half3 == Fr(3, 2)
Law(f, x) ==
  CASE f \in {"asin(sin)", "atan(tan)"} -> Only(In(x, Neg(Half3), Half3), x)
    [] f = "atan2(sin,cos)" -> Only(In(x, I(-3), I(3)), x)
    [] f = "acos(cos)" -> Only(In(x, I(-3), I(3)), AbsF(x))
    [] f \in {"sin(asin)", "cos(acos)", "tanh(atanh)"} -> Only(In(x, Fr(-15, 16), Fr(15, 16)), x)
    [] f \in {"tan(atan)", "sinh(asinh)"} -> Is(x)
    [] f \in {"log(exp)", "log1p(expm1)", "log2(exp2)", "asinh(sinh)"} -> Only(In(x, I(-5), I(5)), x)
    [] f = "atanh(tanh)" -> Only(In(x, I(-2), I(2)), x)
    [] f = "acosh(cosh)" -> Only(In(x, I(-5), I(5)), AbsF(x))
    [] f \in {"exp(log)", "exp2(log2)", "pow10(log10)", "sqrt^2", "exp(log/2)^2"} -> Only(Less(Zero, x), x)
    [] f = "cosh(acosh)" -> Only(Leq(One, x), x)
    [] f \in {"cbrt^3", "next up", "next down"} -> Is(x)
    [] f \in {"sin^2+cos^2", "cosh^2-sinh^2", "exp(x)exp(-x)", "erf+erfc", "erf slope"} -> Only(In(x, I(-2), I(2)), One)
    [] f \in {"sin 2x", "cos 2x", "tan cos - sin", "sinh by exp", "cosh by exp", "tanh by sinh", "erf odd", "expm1 by exp"} ->
         Only(In(x, I(-5), I(5)), Zero)
    [] f \in {"sin small", "tan small", "asin small", "atan small", "sinh small", "tanh small", "asinh small", "atanh small",
              "expm1 small", "log1p small"} -> Only(x.n # 0 /\ In(x, Fr(-1, 512), Fr(1, 512)), One)
    [] f = "tgamma step" -> Only(Less(Zero, x) /\ Leq(x, I(5)), x)
    [] f = "lgamma by tgamma" -> Only(Less(Zero, x) /\ Leq(x, I(8)), Zero)
    [] f = "hypot^2" -> Is(Mul(Two, Mul(x, x)))
    [] f = "log1p by log" -> Only(Leq(Zero, x), Zero)
    [] OTHER -> None

Answer == IF Q.law THEN Law(Q.f, Q.a[1]) ELSE Exact(Q.f, Q.a)

Next == /\ st = "asked" /\ PrintT(<<"MATH", k, Answer>>) /\ st' = "answered" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws that tie the definitions to each other.                            *)
X == Q.a[1]
Rounding == /\ Floor(X) <= Ceil(X) /\ Ceil(X) - Floor(X) \in {0, 1} /\ {Trunc(X), Round(X), Even(X)} \subseteq {Floor(X), Ceil(X)}
            /\ Leq(AbsF(Sub(X, I(Round(X)))), Fr(1, 2)) /\ Round(Neg(X)) = -Round(X) /\ Trunc(Neg(X)) = -Trunc(X)
Reduced == \A i \in DOMAIN Answer : Answer[i].d > 0 /\ Gcd(Abs(Answer[i].n), Answer[i].d) = 1
Dividing == (~Q.law /\ Q.f \in {"fmod", "remainder"} /\ Answer # None) =>
              /\ Div(Sub(X, Answer[1]), Q.a[2]).d = 1
              /\ Less(AbsF(Answer[1]), AbsF(Q.a[2]))
Scaling == (X.n > 0) => LET e == Exponent(X, 2) IN Leq(Power(Two, e), X) /\ Less(X, Power(Two, e + 1))
=============================================================================
