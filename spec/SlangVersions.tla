---------------------------- MODULE SlangVersions ----------------------------
(***************************************************************************)
(* Semantic version numbers: major.minor.bugfix[-label][+build], how texts *)
(* are read, how versions are ordered and which version follows which.     *)
(* A case is a pair of texts (sequences of one-character strings).  Build  *)
(* metadata, which the published rules leave out of the order, orders      *)
(* versions that do not differ otherwise, so that the order is total.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Texts == JsonDeserialize(IOEnv.CASES)            \* the versions
Others == JsonDeserialize(IOEnv.OTHERS)          \* Others[x]: indices of the versions Texts[x] is compared with
Laws == JsonDeserialize(IOEnv.LAWS)              \* indices of the versions the laws are checked with
Order == JsonDeserialize(IOEnv.CODES)            \* all characters in ascending order

VARIABLES x, y, st
vars == <<x, y, st>>

----------------------------------------------------------------------------
Code(c) == CHOOSE n \in DOMAIN Order : Order[n] = c
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit(c) == \E d \in DOMAIN Digits : Digits[d] = c
Value(c) == (CHOOSE d \in DOMAIN Digits : Digits[d] = c) - 1
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + Value(s[Len(s)])

\* the part before the first c, and what follows it
Pos(s, c) == IF \E n \in DOMAIN s : s[n] = c THEN CHOOSE n \in DOMAIN s : s[n] = c /\ \A m \in 1..n - 1 : s[m] # c ELSE Len(s) + 1
Before(s, c) == SubSeq(s, 1, Pos(s, c) - 1)
After(s, c) == SubSeq(s, Pos(s, c) + 1, Len(s))

Parse(t) == LET r1 == After(t, ".")
                r2 == After(r1, ".")
                body == Before(r2, "+")
            IN  [major |-> Number(Before(t, ".")), minor |-> Number(Before(r1, ".")), bugfix |-> Number(Before(body, "-")),
                 label |-> After(body, "-"), build |-> After(r2, "+")]

RECURSIVE Identifiers(_)
Identifiers(l) == IF Pos(l, ".") > Len(l) THEN <<l>> ELSE <<Before(l, ".")>> \o Identifiers(After(l, "."))
Numeric(s) == \A n \in DOMAIN s : Digit(s[n])

TextLess(s, t) == \E n \in 1..Len(t) : /\ \A m \in 1..n - 1 : m <= Len(s) /\ s[m] = t[m]
                                       /\ n > Len(s) \/ (n <= Len(s) /\ Code(s[n]) < Code(t[n]))
IdLess(s, t) == IF Numeric(s) /\ Numeric(t) THEN Number(s) < Number(t)
                ELSE IF Numeric(s) \/ Numeric(t) THEN Numeric(s)
                ELSE TextLess(s, t)
\* the first differing identifier decides; if there is none the shorter label is smaller
IdsLess(p, q) == \E n \in 1..Len(q) : /\ \A m \in 1..n - 1 : m <= Len(p) /\ p[m] = q[m]
                                      /\ n > Len(p) \/ (n <= Len(p) /\ p[n] # q[n] /\ IdLess(p[n], q[n]))
LabelLess(k, l) == IF k = <<>> THEN FALSE ELSE IF l = <<>> THEN TRUE ELSE IdsLess(Identifiers(k), Identifiers(l))

Less(v, w) == IF v.major # w.major THEN v.major < w.major
              ELSE IF v.minor # w.minor THEN v.minor < w.minor
              ELSE IF v.bugfix # w.bugfix THEN v.bugfix < w.bugfix
              ELSE IF v.label # w.label THEN LabelLess(v.label, w.label)
              ELSE TextLess(v.build, w.build)

V == [n \in DOMAIN Texts |-> Parse(Texts[n])]

----------------------------------------------------------------------------
Init == /\ x \in DOMAIN Texts /\ y = 0 /\ st = "read"
\* what the version reads like, and what follows it; then its order among the others
Read == /\ st = "read" /\ PrintT(<<"VERSION", x, V[x].major, V[x].minor, V[x].bugfix, V[x].label, V[x].build>>)
        /\ st' = "compare" /\ y' \in {Others[x][n] : n \in DOMAIN Others[x]} /\ UNCHANGED x
Compare == /\ st = "compare" /\ PrintT(<<"PAIR", x, y, IF Less(V[x], V[y]) THEN -1 ELSE IF Less(V[y], V[x]) THEN 1 ELSE 0>>)
           /\ st' = "done" /\ UNCHANGED <<x, y>>
Next == Read \/ Compare
Spec == Init /\ [][Next]_vars

Among == {Laws[n] : n \in DOMAIN Laws}
Irreflexive == ~Less(V[x], V[x])
Total == st = "compare" => IF V[x] = V[y] THEN ~Less(V[x], V[y]) ELSE Less(V[x], V[y]) # Less(V[y], V[x])
Transitive == st = "compare" /\ x \in Among /\ y \in Among /\ Less(V[x], V[y]) => \A z \in Among : Less(V[y], V[z]) => Less(V[x], V[z])
\* what follows a version in one place is greater, and nothing without that change lies in between
PreRelease == V[x].label # <<>> => Less(V[x], [V[x] EXCEPT !.label = <<>>, !.build = <<>>])
Follows == LET v == V[x] n == [major |-> v.major, minor |-> v.minor, bugfix |-> v.bugfix + 1, label |-> <<>>, build |-> <<>>] IN Less(v, n)
=============================================================================
