------------------------------ MODULE SlangValues ------------------------------
(***************************************************************************)
(* Values of the atomic types and the conversions between them.  A case is *)
(* a value, given as a literal, and a route of types it is converted to    *)
(* one after another.  State:                                              *)
(*   k      index of the case                                              *)
(*   i      how many conversions have been done                            *)
(*   type   type of the value: bool, int16, int, int64, float, double,     *)
(*          string                                                         *)
(*   val    the value (see below), Open when the specification leaves the  *)
(*          result of the last conversion open (rounding to a float, an    *)
(*          integer beyond 64 bits)                                        *)
(*   seen   text of every value so far                                     *)
(*   st     "run", then "end"                                              *)
(* An integer is its two's complement: four limbs of 16 bits, the lowest   *)
(* first.  A float or double is a decimal number [neg, ds, sc] standing    *)
(* for ds * 10^-sc.  A string is a sequence of characters.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)   \* [start |-> [t, cs], route |-> <<type, ...>>]

CONSTANT Open

VARIABLES k, i, type, val, seen, st
vars == <<k, i, type, val, seen, st>>

Ints == {"int16", "int", "int64"}
Reals == {"float", "double"}
Types == Ints \union Reals \union {"bool", "string"}
IsOpen(v) == v = Open

----------------------------------------------------------------------------
(* Integers.                                                               *)
B == 65536
Zero == <<0, 0, 0, 0>>
Negative(a) == a[4] >= 32768

RECURSIVE Times(_, _, _, _)
\* a * m + c, limb by limb from j on; the carry out of the last limb is <<limbs, carry>>'s second part
Times(a, m, c, j) ==
  IF j > 4 THEN <<a, c>>
  ELSE LET x == a[j] * m + c IN Times([a EXCEPT ![j] = x % B], m, x \div B, j + 1)

Minus(a) == Times([j \in 1..4 |-> B - 1 - a[j]], 1, 1, 1)[1]
Abs(a) == IF Negative(a) THEN Minus(a) ELSE a

RECURSIVE Over(_, _, _, _)
\* a \div m and a % m, a without sign
Over(a, m, r, j) == IF j = 0 THEN <<a, r>> ELSE LET x == r * B + a[j] IN Over([a EXCEPT ![j] = x \div m], m, x % m, j - 1)

RECURSIVE Digits(_)
Digits(a) == LET q == Over(a, 10, 0, 4) IN IF q[1] = Zero THEN <<q[2]>> ELSE Append(Digits(q[1]), q[2])

RECURSIVE Limbs(_, _)
\* digits as limbs without sign; Open when 64 bits do not suffice
Limbs(ds, a) == IF ds = <<>> THEN a
                ELSE LET x == Times(a, 10, ds[1], 1) IN IF x[2] > 0 THEN Open ELSE Limbs(Tail(ds), x[1])

Least == <<0, 0, 0, 32768>>
Greatest == <<B - 1, B - 1, B - 1, 32767>>
\* the nearest 64 bit integer
Signed(neg, ds) == LET a == Limbs(ds, Zero) IN
                   IF IsOpen(a) \/ (Negative(a) /\ ~(neg /\ a = Least)) THEN (IF neg THEN Least ELSE Greatest)
                   ELSE IF neg THEN Minus(a) ELSE a

Narrow(a, t) == CASE t = "int16" -> LET s == IF a[1] >= 32768 THEN B - 1 ELSE 0 IN <<a[1], s, s, s>>
                  [] t = "int" -> LET s == IF a[2] >= 32768 THEN B - 1 ELSE 0 IN <<a[1], a[2], s, s>>
                  [] t = "int64" -> a

RECURSIVE Bits(_), Odd(_)
Odd(a) == IF a = Zero \/ a[1] % 2 = 1 THEN a ELSE Odd(Over(a, 2, 0, 4)[1])
Bits(a) == IF a = Zero THEN 0 ELSE 1 + Bits(Over(a, 2, 0, 4)[1])
\* bits between the first and the last one
Width(a) == Bits(Odd(a))

----------------------------------------------------------------------------
(* Decimal numbers.                                                        *)
RECURSIVE Lead(_), Trail(_), Nines(_)
Lead(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Lead(Tail(ds)) ELSE ds
Trail(n) == IF n.sc > 0 /\ n.ds[Len(n.ds)] = 0 THEN Trail([n EXCEPT !.ds = SubSeq(@, 1, Len(@) - 1), !.sc = @ - 1]) ELSE n
Zeros(n) == [j \in 1..n |-> 0]
\* at least one digit before the point, no needless zeros
Norm(n) == LET p == IF Len(n.ds) <= n.sc THEN [n EXCEPT !.ds = Zeros(n.sc + 1 - Len(n.ds)) \o @] ELSE n
               q == Trail(p)
           IN [q EXCEPT !.ds = IF q.sc = 0 THEN Lead(@) ELSE LET w == Len(@) - q.sc IN Lead(SubSeq(@, 1, w)) \o SubSeq(@, w + 1, Len(@))]
Whole(n) == SubSeq(n.ds, 1, Len(n.ds) - n.sc)
Fraction(n) == SubSeq(n.ds, Len(n.ds) - n.sc + 1, Len(n.ds))
IsZero(n) == \A j \in DOMAIN n.ds : n.ds[j] = 0

Nines(ds) == IF ds = <<>> THEN <<1>>
             ELSE IF ds[Len(ds)] = 9 THEN Append(Nines(SubSeq(ds, 1, Len(ds) - 1)), 0)
             ELSE [ds EXCEPT ![Len(ds)] = @ + 1]

RECURSIVE Fives(_, _)
\* n \div 5^s when that leaves no rest, else Open: the numerator over 2^s
Fives(a, s) == IF s = 0 THEN a ELSE LET q == Over(a, 5, 0, 4) IN IF q[2] # 0 THEN Open ELSE Fives(q[1], s - 1)
\* the number is exactly m / 2^j with at most w bits in m
Exact(n, w) == LET a == Limbs(n.ds, Zero) IN IF IsOpen(a) THEN FALSE
               ELSE LET b == Fives(a, n.sc) IN IF IsOpen(b) THEN FALSE ELSE Width(b) <= w

\* the value a real type holds for a number: exact ones; a double also keeps 15 digits
Real(n, t) == LET m == Norm(n) IN
              IF Exact(m, IF t = "float" THEN 24 ELSE 53) THEN m
              ELSE IF t = "double" /\ Len(Lead(m.ds)) <= 15 THEN m ELSE Open

\* rounded to six digits behind the point; a digit sequence right in the middle is left open unless the number is exact
Six(n) == IF n.sc <= 6 THEN n
          ELSE LET cut == n.sc - 6
                   kept == SubSeq(n.ds, 1, Len(n.ds) - cut)
                   rest == SubSeq(n.ds, Len(n.ds) - cut + 1, Len(n.ds))
               IN IF rest[1] = 5 /\ \A j \in 2..cut : rest[j] = 0 THEN Open
                  ELSE Norm([n EXCEPT !.ds = IF rest[1] >= 5 THEN Nines(kept) ELSE kept, !.sc = 6])

----------------------------------------------------------------------------
(* Text.                                                                   *)
CHARS == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E d \in 1..10 : CHARS[d] = c
Digit(c) == (CHOOSE d \in 1..10 : CHARS[d] = c) - 1
Chars(ds) == [j \in DOMAIN ds |-> CHARS[ds[j] + 1]]
Blank == {" ", "\t", "\n"}

Text(v, t) == IF IsOpen(v) THEN Open
  ELSE CASE t = "string" -> v
    [] t = "bool" -> IF v THEN <<"1">> ELSE <<"0">>
    [] t \in Ints -> (IF Negative(v) THEN <<"-">> ELSE <<>>) \o Chars(Digits(Abs(v)))
    [] t \in Reals -> LET n == Six(v) IN
         IF IsOpen(n) THEN Open
         ELSE (IF n.neg THEN <<"-">> ELSE <<>>) \o Chars(Whole(n)) \o (IF n.sc > 0 THEN <<".">> \o Chars(Fraction(n)) ELSE <<>>)

RECURSIVE Skip(_), Run(_), Glue(_)
Skip(cs) == IF cs # <<>> /\ cs[1] \in Blank THEN Skip(Tail(cs)) ELSE cs
\* the digits a text begins with
Run(cs) == IF cs # <<>> /\ IsDigit(cs[1]) THEN <<Digit(cs[1])>> \o Run(Tail(cs)) ELSE <<>>
Glue(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Glue(Tail(cs))
From(cs, n) == SubSeq(cs, n + 1, Len(cs))
Sign(cs) == IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN 1 ELSE 0

\* blanks, a sign, digits; whatever follows is ignored and no digits are zero
ReadInt(cs) == LET a == Skip(cs)
                   ds == Run(From(a, Sign(a)))
               IN IF ds = <<>> THEN Zero ELSE Signed(Sign(a) = 1 /\ a[1] = "-", ds)

\* the same with a fraction and an exponent
ReadReal(cs) == LET a == Skip(cs)
                    b == From(a, Sign(a))
                    w == Run(b)
                    c == From(b, Len(w))
                    f == IF c # <<>> /\ c[1] = "." THEN Run(Tail(c)) ELSE <<>>
                    d == IF c # <<>> /\ c[1] = "." THEN From(Tail(c), Len(f)) ELSE c
                    neg == Sign(a) = 1 /\ a[1] = "-"
                    n == [neg |-> neg, ds |-> w \o f, sc |-> Len(f)]
                    e == IF d # <<>> /\ d[1] \in {"e", "E"} THEN Tail(d) ELSE <<>>
                    x == Run(From(e, Sign(e)))
                    p == x[1] + (IF Len(x) > 1 THEN 9 * x[1] + x[2] ELSE 0)
                IN IF w \o f = <<>> THEN [neg |-> FALSE, ds |-> <<0>>, sc |-> 0]
                   ELSE IF d = <<>> \/ d[1] \notin {"e", "E"} THEN n
                   ELSE IF x = <<>> \/ Len(x) > 2 THEN Open
                   ELSE IF Sign(e) = 1 /\ e[1] = "-" THEN [n EXCEPT !.sc = @ + p]
                   ELSE IF p <= n.sc THEN [n EXCEPT !.sc = @ - p] ELSE [n EXCEPT !.ds = @ \o Zeros(p - n.sc), !.sc = 0]

LOWER == [c \in {"F", "A", "L", "S", "E"} |-> CASE c = "F" -> "f" [] c = "A" -> "a" [] c = "L" -> "l" [] c = "S" -> "s" [] c = "E" -> "e"]
Lower(c) == IF c \in DOMAIN LOWER THEN LOWER[c] ELSE c
RECURSIVE Shave(_)
Shave(cs) == IF cs = <<>> THEN cs ELSE IF cs[1] = " " THEN Shave(Tail(cs)) ELSE IF cs[Len(cs)] = " " THEN Shave(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
\* everything but an empty text and "false" is true
ReadBool(cs) == LET a == Shave(cs) IN ~(a = <<>> \/ a = <<"\n">> \/ [j \in DOMAIN a |-> Lower(a[j])] = <<"f", "a", "l", "s", "e">>)

----------------------------------------------------------------------------
(* The rules, one for every pair of types.                                 *)
Truth(v, t) == CASE t = "bool" -> v
                 [] t \in Ints -> v # Zero
                 [] t \in Reals -> ~IsZero(v)
                 [] t = "string" -> ReadBool(v)

\* a number without its fraction, Open beyond 64 bits
Cut(n) == LET a == Limbs(Whole(n), Zero) IN IF IsOpen(a) THEN Open ELSE IF Negative(a) THEN Open ELSE IF n.neg THEN Minus(a) ELSE a

Convert(v, s, t) ==
  IF IsOpen(v) THEN Open
  ELSE IF s = t THEN v
  ELSE CASE t = "string" -> Text(v, s)
         [] t = "bool" -> Truth(v, s)
         [] t \in Ints -> LET a == CASE s = "bool" -> IF v THEN <<1, 0, 0, 0>> ELSE Zero
                                     [] s \in Ints -> v
                                     [] s \in Reals -> Cut(v)
                                     [] s = "string" -> ReadInt(v)
                          IN IF IsOpen(a) THEN Open ELSE Narrow(a, t)
         [] t \in Reals -> LET n == CASE s = "bool" -> [neg |-> FALSE, ds |-> <<IF v THEN 1 ELSE 0>>, sc |-> 0]
                                      [] s \in Ints -> [neg |-> Negative(v), ds |-> Digits(Abs(v)), sc |-> 0]
                                      [] s \in Reals -> v
                                      [] s = "string" -> ReadReal(v)
                           IN IF IsOpen(n) THEN Open ELSE Real(n, t)

\* the value of a literal
Literal(t, cs) == CASE t = "string" -> cs
                    [] t = "bool" -> cs = <<"t", "r", "u", "e">>
                    [] t \in Ints -> Narrow(ReadInt(cs), t)
                    [] t \in Reals -> Real(ReadReal(cs), t)

----------------------------------------------------------------------------
K == Cases[k]

Init == /\ k \in 1..Len(Cases)
        /\ i = 0 /\ st = "run"
        /\ type = Cases[k].start.t
        /\ val = Literal(Cases[k].start.t, Cases[k].start.cs)
        /\ seen = <<Text(Literal(Cases[k].start.t, Cases[k].start.cs), Cases[k].start.t)>>

Step == /\ st = "run" /\ i < Len(K.route) /\ ~IsOpen(val)
        /\ LET v == Convert(val, type, K.route[i + 1]) IN val' = v /\ seen' = Append(seen, Text(v, K.route[i + 1]))
        /\ type' = K.route[i + 1] /\ i' = i + 1
        /\ UNCHANGED <<k, st>>

Show(x) == IF IsOpen(x) THEN "?" ELSE "=" \o Glue(x)
Report == /\ st = "run" /\ (i = Len(K.route) \/ IsOpen(val))
          /\ PrintT(<<"VAL", k, [j \in DOMAIN seen |-> Show(seen[j])]>>)
          /\ st' = "end"
          /\ UNCHANGED <<k, i, type, val, seen>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* an integer stays within its type
InRange == type \in Ints /\ ~IsOpen(val) => val = Narrow(val, type)
\* an integer or truth value written as text and read back is the same one ("0" is a text and as such true)
TextAndBack == ~IsOpen(val) /\ type \in Ints => Convert(Convert(val, type, "string"), "string", type) = val
\* widening loses nothing
Wider == {<<"bool", t>> : t \in Types \ {"bool", "string"}} \union {<<"int16", t>> : t \in {"int", "int64", "float", "double"}}
         \union {<<"int", t>> : t \in {"int64", "double"}} \union {<<"float", "double">>}
Lossless == ~IsOpen(val) => \A p \in Wider : p[1] = type =>
              LET w == Convert(val, type, p[2]) IN ~IsOpen(w) /\ Convert(w, p[2], type) = val
\* a conversion over a wider type is the direct one
Detour == ~IsOpen(val) => \A p \in Wider : p[1] = type => \A t \in Types \ {"string"} :
              LET d == Convert(val, type, t)
                  w == Convert(Convert(val, type, p[2]), p[2], t) IN IsOpen(d) \/ IsOpen(w) \/ d = w
\* all numeric types agree about what is true
Agree == ~IsOpen(val) /\ type \in Ints => \A t \in Reals : LET w == Convert(val, type, t) IN IsOpen(w) \/ Truth(w, t) = Truth(val, type)
=============================================================================
