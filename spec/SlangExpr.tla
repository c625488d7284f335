------------------------------ MODULE SlangExpr ------------------------------
(* How slang reads and evaluates an expression.  A case is a sequence of     *)
(* tokens.  The specification parses it with the grammar of the language     *)
(* (levels, associativity, how far a prefix, a postfix, an assignment and a  *)
(* conditional reach), finds its type, and evaluates it: which operands are  *)
(* evaluated, in which order, how often, and what the value is.  TLC prints  *)
(* what a run must show; the harness replays every case into slang.          *)
(*                                                                           *)
(* Tokens: [k |-> kind, v |-> text, n |-> number]                            *)
(*   int/bool/str  literals                                                  *)
(*   var           x, y, z (int), b, c (bool), s (string)                    *)
(*   tr            a call of the tracing function t(id, expression):         *)
(*                 tr ( ... ), prints id and the value and returns the value *)
(*   op            operators, parentheses, ? and :                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
Limit == 1000000          \* numbers beyond are left to property S02

-----------------------------------------------------------------------------
(* Parsing: each level returns [e |-> tree, p |-> next position]; e.k = "err" *)
(* marks a sequence which is not an expression.                              *)
Err(p) == [e |-> [k |-> "err"], p |-> p]
Bad(r) == r.e.k = "err"
Tk(ts, p) == IF p <= Len(ts) THEN ts[p] ELSE [k |-> "end", v |-> "", n |-> 0]
IsOp(t, ops) == t.k = "op" /\ t.v \in ops

BoolOps == {"&&", "||", "!&", "!|"}
CmpOps  == {"==", "!=", "<", "<=", ">", ">="}
AddOps  == {"+", "-", "&", "|"}
MulOps  == {"*", "/", "%"}
AsgOps  == {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|="}

RECURSIVE PExpr(_, _), PLoop(_, _, _), PLevel(_, _, _), PInfix(_, _), PPost(_, _), PTerm(_, _)

Ops(level) == CASE level = 1 -> BoolOps [] level = 2 -> CmpOps [] level = 3 -> AddOps [] OTHER -> MulOps

\* all binary operators of one level associate to the left
PLevel(ts, p, level) ==
    IF level = 5 THEN PInfix(ts, p)
    ELSE LET l == PLevel(ts, p, level + 1)
         IN  IF Bad(l) THEN l ELSE PLoop(ts, l, level)

PLoop(ts, l, level) ==
    IF ~IsOp(Tk(ts, l.p), Ops(level)) THEN l
    ELSE LET r == PLevel(ts, l.p + 1, level + 1)
         IN  IF Bad(r) THEN r
             ELSE PLoop(ts, [e |-> [k |-> "bin", op |-> Tk(ts, l.p).v, l |-> l.e, r |-> r.e], p |-> r.p], level)

PExpr(ts, p) == PLevel(ts, p, 1)

\* at most one prefix operator, binding closer than any binary operator
PInfix(ts, p) ==
    IF IsOp(Tk(ts, p), {"-", "+", "!"})
    THEN LET t == PTerm(ts, p + 1)
         IN  IF Bad(t) THEN t ELSE PPost(ts, [e |-> [k |-> "un", op |-> Tk(ts, p).v, e |-> t.e], p |-> t.p])
    ELSE LET t == PTerm(ts, p) IN IF Bad(t) THEN t ELSE PPost(ts, t)

\* the condition of ?: is the operand right before it; both branches reach as far as they can
PPost(ts, l) ==
    IF ~IsOp(Tk(ts, l.p), {"?"}) THEN l
    ELSE IF IsOp(Tk(ts, l.p + 1), {":"})
    THEN LET b == PExpr(ts, l.p + 2)
         IN  IF Bad(b) THEN b ELSE [e |-> [k |-> "elvis", c |-> l.e, b |-> b.e], p |-> b.p]
    ELSE LET a == PExpr(ts, l.p + 1)
         IN  IF Bad(a) \/ ~IsOp(Tk(ts, a.p), {":"}) THEN Err(l.p)
             ELSE LET b == PExpr(ts, a.p + 1)
                  IN  IF Bad(b) THEN b ELSE [e |-> [k |-> "cond", c |-> l.e, a |-> a.e, b |-> b.e], p |-> b.p]

PTerm(ts, p) ==
    LET t == Tk(ts, p) IN
    CASE t.k = "int"  -> [e |-> [k |-> "lit", t |-> "int", n |-> t.n, s |-> ""], p |-> p + 1]
      [] t.k = "bool" -> [e |-> [k |-> "lit", t |-> "bool", n |-> t.n, s |-> ""], p |-> p + 1]
      [] t.k = "str"  -> [e |-> [k |-> "lit", t |-> "string", n |-> 0, s |-> t.v], p |-> p + 1]
      [] t.k = "var"  ->
           LET o == Tk(ts, p + 1) IN
           IF IsOp(o, AsgOps)
           THEN LET r == PExpr(ts, p + 2)
                IN  IF Bad(r) THEN r
                    ELSE [e |-> [k |-> "asg", v |-> t.v, e |-> IF o.v = "=" THEN r.e
                                 ELSE [k |-> "bin", op |-> SubSeq(o.v, 1, 1), l |-> [k |-> "var", v |-> t.v], r |-> r.e]], p |-> r.p]
           ELSE IF IsOp(o, {"++", "--"})
           THEN [e |-> [k |-> "inc", op |-> o.v, v |-> t.v], p |-> p + 2]
           ELSE [e |-> [k |-> "var", v |-> t.v], p |-> p + 1]
      [] t.k = "tr"   ->
           LET r == IF IsOp(Tk(ts, p + 1), {"("}) THEN PExpr(ts, p + 2) ELSE Err(p)
           IN  IF Bad(r) \/ ~IsOp(Tk(ts, r.p), {")"}) THEN Err(p)
               ELSE [e |-> [k |-> "tr", v |-> t.v, e |-> r.e], p |-> r.p + 1]
      [] IsOp(t, {"("}) ->
           LET r == PExpr(ts, p + 1)
           IN  IF Bad(r) \/ ~IsOp(Tk(ts, r.p), {")"}) THEN Err(p) ELSE [e |-> r.e, p |-> r.p + 1]
      [] OTHER -> Err(p)

Parse(ts) == LET r == PExpr(ts, 1) IN IF r.p = Len(ts) + 1 THEN r.e ELSE [k |-> "err"]

-----------------------------------------------------------------------------
(* Types *)
VarType(v) == CASE v \in {"x", "y", "z"} -> "int" [] v \in {"b", "c"} -> "bool" [] OTHER -> "string"

BinType(op, l, r) ==
    CASE op \in BoolOps -> IF l \in {"int", "bool"} /\ r \in {"int", "bool"} THEN "bool" ELSE "bad"
      [] op \in {"==", "!="} -> IF l = r /\ l # "bad" THEN "bool" ELSE "bad"
      [] op \in CmpOps -> IF l = r /\ l \in {"int", "string"} THEN "bool" ELSE "bad"
      [] op = "+" -> IF l = "string" /\ r # "bad" THEN "string" ELSE IF l = "int" /\ r = "int" THEN "int" ELSE "bad"
      [] OTHER -> IF l = "int" /\ r = "int" THEN "int" ELSE "bad"

RECURSIVE Type(_)
Type(e) ==
    CASE e.k = "err"  -> "bad"
      [] e.k = "lit"  -> e.t
      [] e.k = "var"  -> VarType(e.v)
      [] e.k = "asg"  -> IF Type(e.e) = VarType(e.v) THEN VarType(e.v) ELSE "bad"
      [] e.k = "inc"  -> IF VarType(e.v) = "int" THEN "int" ELSE "bad"
      [] e.k = "tr"   -> Type(e.e)
      [] e.k = "un"   -> LET t == Type(e.e) IN
                         IF e.op = "!" THEN (IF t = "bool" THEN "bool" ELSE "bad") ELSE (IF t = "int" THEN "int" ELSE "bad")
      [] e.k = "cond" -> LET a == Type(e.a) IN
                         IF Type(e.c) \in {"bool", "int"} /\ a = Type(e.b) THEN a ELSE "bad"
      [] e.k = "elvis" -> LET a == Type(e.c) IN IF a \in {"bool", "int"} /\ a = Type(e.b) THEN a ELSE "bad"
      [] OTHER        -> BinType(e.op, Type(e.l), Type(e.r))

-----------------------------------------------------------------------------
(* Values and evaluation.  m = [env, log, skip]; skip is set where the       *)
(* language leaves the result to other properties (large numbers, division   *)
(* by zero) or says nothing (the value of !& and !| when the left side does  *)
(* not decide).                                                              *)
Num(n)  == [t |-> "int", n |-> n, s |-> ""]
Boo(b) == [t |-> "bool", n |-> IF b THEN 1 ELSE 0, s |-> ""]
Str(s)  == [t |-> "string", n |-> 0, s |-> s]
Text(v) == IF v.t = "string" THEN v.s ELSE ToString(v.n)
Truth(v) == v.n # 0

Abs(n) == IF n < 0 THEN -n ELSE n
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Rem(a, b)  == a - Quot(a, b) * b

\* bit operations on 24 bit two's complement (all numbers are within Limit)
Bits == 24
Wrap(n) == IF n < 0 THEN n + 16777216 ELSE n
Sign(n) == IF n >= 8388608 THEN n - 16777216 ELSE n
RECURSIVE BitFold(_, _, _, _)
BitFold(op, a, b, i) ==
    IF i = 0 THEN 0
    ELSE LET x == a % 2
             y == b % 2
             z == CASE op = "&" -> (IF x = 1 /\ y = 1 THEN 1 ELSE 0)
                    [] op = "|" -> (IF x = 1 \/ y = 1 THEN 1 ELSE 0)
                    [] OTHER    -> (IF x # y THEN 1 ELSE 0)
         IN  z + 2 * BitFold(op, a \div 2, b \div 2, i - 1)

Arith(op, a, b) ==
    CASE op = "+" -> a + b
      [] op = "-" -> a - b
      [] op = "*" -> a * b
      [] op = "/" -> Quot(a, b)
      [] op = "%" -> Rem(a, b)
      [] OTHER    -> Sign(BitFold(op, Wrap(a), Wrap(b), Bits))

\* strings of the cases are compared only for equality or by a given order of the texts
Less(a, b) == a.n < b.n

Cmp(op, a, b) ==
    CASE op = "==" -> a = b
      [] op = "!=" -> a # b
      [] op = "<"  -> Less(a, b)
      [] op = "<=" -> ~Less(b, a)
      [] op = ">"  -> Less(b, a)
      [] OTHER     -> ~Less(a, b)

Res(v, m) == [v |-> v, m |-> m]
Skip(m) == [m EXCEPT !.skip = TRUE]

RECURSIVE Eval(_, _)
Eval(e, m) ==
    IF m.skip THEN Res(Num(0), m)
    ELSE
    CASE e.k = "lit" -> Res([t |-> e.t, n |-> e.n, s |-> e.s], m)
      [] e.k = "var" -> Res(m.env[e.v], m)
      [] e.k = "tr"  -> LET r == Eval(e.e, m)
                        IN  Res(r.v, [r.m EXCEPT !.log = Append(@, e.v \o ":" \o Text(r.v))])
      [] e.k = "asg" -> LET r == Eval(e.e, m) IN Res(r.v, [r.m EXCEPT !.env[e.v] = r.v])
      [] e.k = "inc" -> LET v == Num(m.env[e.v].n + (IF e.op = "++" THEN 1 ELSE -1))
                        IN  Res(v, [m EXCEPT !.env[e.v] = v])
      [] e.k = "un"  -> LET r == Eval(e.e, m)
                        IN  Res(CASE e.op = "!" -> Boo(~Truth(r.v)) [] e.op = "-" -> Num(-r.v.n) [] OTHER -> r.v, r.m)
      [] e.k = "cond" -> LET c == Eval(e.c, m) IN IF Truth(c.v) THEN Eval(e.a, c.m) ELSE Eval(e.b, c.m)
      [] e.k = "elvis" -> LET c == Eval(e.c, m) IN IF Truth(c.v) THEN c ELSE Eval(e.b, c.m)
      [] OTHER ->
           LET l == Eval(e.l, m) IN
           IF l.m.skip THEN l
           ELSE IF e.op = "&&" /\ ~Truth(l.v) THEN Res(Boo(FALSE), l.m)
           ELSE IF e.op = "||" /\ Truth(l.v)  THEN Res(Boo(TRUE), l.m)
           ELSE IF e.op = "!&" /\ ~Truth(l.v) THEN Res(Boo(TRUE), l.m)
           ELSE IF e.op = "!|" /\ Truth(l.v)  THEN Res(Boo(FALSE), l.m)
           ELSE LET r == Eval(e.r, l.m) IN
                IF r.m.skip THEN r
                ELSE CASE e.op \in {"&&", "||"} -> Res(Boo(Truth(r.v)), r.m)
                       [] e.op \in {"!&", "!|"} -> Res(Boo(FALSE), Skip(r.m))
                       [] e.op \in {"==", "!="} -> Res(Boo(Cmp(e.op, l.v, r.v)), r.m)
                       [] e.op \in CmpOps -> IF l.v.t = "string" THEN Res(Boo(FALSE), Skip(r.m))
                                             ELSE Res(Boo(Cmp(e.op, l.v, r.v)), r.m)
                       [] l.v.t = "string" -> Res(Str(l.v.s \o Text(r.v)), r.m)
                       [] e.op \in {"/", "%"} /\ r.v.n = 0 -> Res(Num(0), Skip(r.m))
                       [] e.op = "*" /\ (Abs(l.v.n) > 1000 \/ Abs(r.v.n) > 1000) -> Res(Num(0), Skip(r.m))
                       [] OTHER -> LET n == Arith(e.op, l.v.n, r.v.n)
                                   IN  IF Abs(n) > Limit THEN Res(Num(0), Skip(r.m)) ELSE Res(Num(n), r.m)

Env0 == [x |-> Num(5), y |-> Num(-3), z |-> Num(2), b |-> Boo(TRUE), c |-> Boo(FALSE), s |-> Str("S")]

-----------------------------------------------------------------------------
(* The steps of one case: read, parsed, done *)
VARIABLE st

Init == \E i \in 1..Len(Cases) : st = [i |-> i, ph |-> "read", e |-> [k |-> "none"]]

Read == /\ st.ph = "read"
        /\ st' = [st EXCEPT !.ph = "parsed", !.e = Parse(Cases[st.i])]

Answer(e) ==
    IF Type(e) = "bad" THEN <<"BAD", st.i>>
    ELSE LET r == Eval(e, [env |-> Env0, log |-> <<>>, skip |-> FALSE])
         IN  IF r.m.skip THEN <<"SKIP", st.i>>
             ELSE <<"CASE", st.i, Type(e), Text(r.v), r.m.log, [v \in DOMAIN Env0 |-> Text(r.m.env[v])]>>

Evaluate == /\ st.ph = "parsed"
            /\ PrintT(Answer(st.e))
            /\ st' = [st EXCEPT !.ph = "done", !.e = [k |-> "none"]]

Next == Read \/ Evaluate

(* Checked on every parsed case: parentheses are transparent, and reading    *)
(* the tree back with all parentheses written out gives the same tree.       *)
Op(v) == [k |-> "op", v |-> v, n |-> 0]
RECURSIVE Unparse(_)
Unparse(e) ==
    CASE e.k = "lit" -> <<[k |-> CASE e.t = "string" -> "str" [] OTHER -> e.t, v |-> e.s, n |-> e.n]>>
      [] e.k = "var" -> <<[k |-> "var", v |-> e.v, n |-> 0]>>
      [] e.k = "inc" -> <<[k |-> "var", v |-> e.v, n |-> 0], Op(e.op)>>
      [] e.k = "tr"  -> <<[k |-> "tr", v |-> e.v, n |-> 0], Op("(")>> \o Unparse(e.e) \o <<Op(")")>>
      [] e.k = "asg" -> <<Op("("), [k |-> "var", v |-> e.v, n |-> 0], Op("=")>> \o Unparse(e.e) \o <<Op(")")>>
      [] e.k = "un"  -> <<Op("("), Op(e.op), Op("(")>> \o Unparse(e.e) \o <<Op(")"), Op(")")>>
      [] e.k = "cond" -> <<Op("("), Op("(")>> \o Unparse(e.c) \o <<Op(")"), Op("?")>> \o Unparse(e.a) \o <<Op(":")>>
                         \o Unparse(e.b) \o <<Op(")")>>
      [] e.k = "elvis" -> <<Op("("), Op("(")>> \o Unparse(e.c) \o <<Op(")"), Op("?"), Op(":")>> \o Unparse(e.b) \o <<Op(")")>>
      [] OTHER -> <<Op("(")>> \o Unparse(e.l) \o <<Op(e.op)>> \o Unparse(e.r) \o <<Op(")")>>

RoundTrip == (st.ph = "parsed" /\ st.e.k # "err") => Parse(Unparse(st.e)) = st.e
=============================================================================
