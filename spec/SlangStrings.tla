----------------------------- MODULE SlangStrings -----------------------------
(***************************************************************************)
(* The string functions of the extensions and the methods of the String    *)
(* class, as functions over sequences of characters.  A case is a call     *)
(* [f, a, b, c, n, m]: name, up to three texts (sequences of one-character *)
(* strings), up to two numbers.  The order of characters is that of Codes. *)
(* An answer is [r, v]: the result, and the text the String object holds   *)
(* afterwards (a for functions, which change nothing).  Results: a text, a *)
(* sequence of texts, a number, "!" for an exception, Open if nothing is   *)
(* specified.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Open

Cases == JsonDeserialize(IOEnv.CASES)
Codes == JsonDeserialize(IOEnv.CODES)        \* characters in ascending order, with their upper and lower case

VARIABLES k, st
vars == <<k, st>>

Q == Cases[k]
Init == k \in 1..Len(Cases) /\ st = "asked"

----------------------------------------------------------------------------
Entry(ch) == CHOOSE x \in DOMAIN Codes : Codes[x].ch = ch
Lower(s) == [x \in DOMAIN s |-> Codes[Entry(s[x])].lower]
Upper(s) == [x \in DOMAIN s |-> Codes[Entry(s[x])].upper]

\* n characters from position p (counted from 0) on, as far as there are some
Part(s, p, n) == SubSeq(s, p + 1, IF p + n > Len(s) THEN Len(s) ELSE p + n)
From(s, p) == Part(s, p, Len(s))
At(s, t, p) == p + Len(t) <= Len(s) /\ Part(s, p, Len(t)) = t
\* first and last position of t in s that is not before p; -1 if there is none
Found(s, t, p) == {x \in p..Len(s) : At(s, t, x)}
Find(s, t, p) == LET f == Found(s, t, p) IN IF f = {} THEN -1 ELSE CHOOSE x \in f : \A y \in f : x <= y
FindLast(s, t) == LET f == Found(s, t, 0) IN IF f = {} THEN -1 ELSE CHOOSE x \in f : \A y \in f : x >= y

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) = " " THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Change(s, p, t, u) == Part(s, 0, p) \o u \o From(s, p + Len(t))
\* from the left, going on behind what has been inserted
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, t, u, p) == LET x == Find(s, t, p) IN IF x = -1 THEN s ELSE ReplaceFrom(Change(s, x, t, u), t, u, x + Len(u))

RECURSIVE Split(_, _)
Split(s, t) == LET x == Find(s, t, 0) IN IF x = -1 THEN <<s>> ELSE <<Part(s, 0, x)>> \o Split(From(s, x + Len(t)), t)
RECURSIVE Join(_, _)
Join(q, t) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o t \o Join(Tail(q), t)

Less(s, t) == \E x \in 1..Len(t) : /\ \A y \in 1..x - 1 : y <= Len(s) /\ s[y] = t[y]
                                   /\ x > Len(s) \/ (x <= Len(s) /\ Entry(s[x]) < Entry(t[x]))
Sign(s, t) == IF s = t THEN 0 ELSE IF Less(s, t) THEN -1 ELSE 1
Span(s, set) == LET e == {x \in DOMAIN s : s[x] \notin set} IN IF e = {} THEN Len(s) ELSE (CHOOSE x \in e : \A y \in e : x <= y) - 1
Chars(s) == {s[x] : x \in DOMAIN s}
Fill(n, ch) == [x \in 1..(IF n > 0 THEN n ELSE 0) |-> ch]
\* the text with the values of the variables it names in triple braces; values are taken as they are
Name(x) == <<"{", "{", "{", x, "}", "}", "}">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<ToString(n)>> ELSE Digits(n \div 10) \o <<ToString(n % 10)>>
Variable == [b |-> Q.b, c |-> Q.c, i |-> IF Q.n < 0 THEN <<"-">> \o Digits(-Q.n) ELSE Digits(Q.n)]
RECURSIVE Eval(_)
Eval(s) == IF s = <<>> THEN s
           ELSE IF \E x \in DOMAIN Variable : At(s, Name(x), 0)
                THEN LET x == CHOOSE x \in DOMAIN Variable : At(s, Name(x), 0) IN Variable[x] \o Eval(From(s, 7))
           ELSE <<Head(s)>> \o Eval(Tail(s))
Bool(b) == IF b THEN 1 ELSE 0

----------------------------------------------------------------------------
Keeps(r) == [r |-> r, v |-> Q.a]
Becomes(r, v) == [r |-> r, v |-> v]
Inside(p) == p >= 0 /\ p <= Len(Q.a)

Function ==
  CASE Q.f \in {"strlen", "Length"} -> Keeps(Len(Q.a))
    [] Q.f \in {"substr2", "SubString1"} -> Keeps(IF Inside(Q.n) THEN From(Q.a, Q.n) ELSE Open)
    [] Q.f \in {"substr3", "SubString2"} -> Keeps(IF Inside(Q.n) /\ Q.m >= 0 THEN Part(Q.a, Q.n, Q.m) ELSE Open)
    [] Q.f \in {"strfind2", "IndexOf1"} -> Keeps(Find(Q.a, Q.b, 0))
    [] Q.f \in {"strfind3", "IndexOf2"} -> Keeps(IF Q.n < 0 THEN Open ELSE Find(Q.a, Q.b, Q.n))
    [] Q.f = "strpos" -> Keeps(IF Q.n >= 0 /\ Q.n < Len(Q.a) THEN Part(Q.a, Q.n, 1) ELSE Open)
    [] Q.f = "strlpad" -> Keeps(IF Len(Q.b) # 1 \/ Q.n < 0 THEN Open ELSE Fill(Q.n - Len(Q.a), Q.b[1]) \o Q.a)
    [] Q.f = "strrpad" -> Keeps(IF Len(Q.b) # 1 \/ Q.n < 0 THEN Open ELSE Q.a \o Fill(Q.n - Len(Q.a), Q.b[1]))
    \* which of four braces count is open
    [] Q.f = "streval" -> Keeps(IF Find(Q.a, <<"{", "{", "{", "{">>, 0) # -1 \/ Find(Q.a, <<"}", "}", "}", "}">>, 0) # -1 THEN Open ELSE Eval(Q.a))
    [] Q.f = "strltrim" -> Keeps(TrimL(Q.a))
    [] Q.f = "strrtrim" -> Keeps(TrimR(Q.a))
    [] Q.f = "strtrim" -> Keeps(TrimL(TrimR(Q.a)))
    [] Q.f \in {"toLower", "ToLower", "ToLowerCase"} -> Keeps(Lower(Q.a))
    [] Q.f \in {"toUpper", "ToUpper", "ToUpperCase"} -> Keeps(Upper(Q.a))
    [] Q.f \in {"strcat", "plus", "Plus", "PlusString"} -> Keeps(Q.a \o Q.b)
    [] Q.f = "strncat" -> Keeps(IF Q.n < 0 THEN Open ELSE Q.a \o Part(Q.b, 0, Q.n))
    \* the rest of the text, from what was searched for on
    [] Q.f = "strchr" -> Keeps(IF Find(Q.a, Q.b, 0) = -1 THEN <<>> ELSE From(Q.a, Find(Q.a, Q.b, 0)))
    [] Q.f = "strrchr" -> Keeps(IF FindLast(Q.a, Q.b) = -1 THEN <<>> ELSE From(Q.a, FindLast(Q.a, Q.b)))
    [] Q.f = "strstr" -> Keeps(IF Find(Q.a, Q.b, 0) = -1 THEN <<>> ELSE From(Q.a, Find(Q.a, Q.b, 0)))
    [] Q.f = "strpbrk" -> Keeps(From(Q.a, Span(Q.a, {Codes[x].ch : x \in DOMAIN Codes} \ Chars(Q.b))))
    [] Q.f = "strspn" -> Keeps(Span(Q.a, Chars(Q.b)))
    [] Q.f = "strcspn" -> Keeps(Span(Q.a, {Codes[x].ch : x \in DOMAIN Codes} \ Chars(Q.b)))
    [] Q.f \in {"strcmp", "strcoll"} -> Keeps(Sign(Q.a, Q.b))
    [] Q.f = "strncmp" -> Keeps(IF Q.n < 0 THEN Open ELSE Sign(Part(Q.a, 0, Q.n), Part(Q.b, 0, Q.n)))
    [] Q.f \in {"equal", "Equal", "EqualString"} -> Keeps(Bool(Q.a = Q.b))
    [] Q.f = "unequal" -> Keeps(Bool(Q.a # Q.b))
    [] Q.f \in {"less", "Less", "LessString"} -> Keeps(Bool(Less(Q.a, Q.b)))
    [] Q.f = "lessequal" -> Keeps(Bool(~Less(Q.b, Q.a)))
    [] Q.f = "greater" -> Keeps(Bool(Less(Q.b, Q.a)))
    [] Q.f = "greaterequal" -> Keeps(Bool(~Less(Q.a, Q.b)))

Method ==
  CASE Q.f \in {"CharAt", "Subscript"} -> Keeps(IF Q.n >= 0 /\ Q.n < Len(Q.a) THEN Part(Q.a, Q.n, 1) ELSE "!")
    [] Q.f = "Contains" -> Keeps(Bool(Find(Q.a, Q.b, 0) # -1))
    [] Q.f = "StartsWith" -> Keeps(Bool(At(Q.a, Q.b, 0)))
    [] Q.f = "EndsWith" -> Keeps(Bool(Len(Q.b) <= Len(Q.a) /\ At(Q.a, Q.b, Len(Q.a) - Len(Q.b))))
    [] Q.f = "LastIndexOf" -> Keeps(FindLast(Q.a, Q.b))
    [] Q.f = "Replace" -> IF Find(Q.a, Q.b, 0) = -1 THEN Keeps(0) ELSE Becomes(1, Change(Q.a, Find(Q.a, Q.b, 0), Q.b, Q.c))
    [] Q.f = "ReplaceAll" -> IF Q.b = <<>> THEN Becomes(Open, Open) ELSE Becomes(Bool(Find(Q.a, Q.b, 0) # -1), ReplaceFrom(Q.a, Q.b, Q.c, 0))
    [] Q.f = "RemoveCharAt" -> IF Q.n >= 0 /\ Q.n < Len(Q.a) THEN Becomes(0, Part(Q.a, 0, Q.n) \o From(Q.a, Q.n + 1)) ELSE Keeps("!")
    [] Q.f = "Split" -> Keeps(Split(Q.a, <<" ">>))
    [] Q.f = "SplitBy" -> Keeps(IF Q.b = <<>> THEN Open ELSE Split(Q.a, Q.b))
    [] Q.f = "Characters" -> Keeps([x \in DOMAIN Q.a |-> <<Q.a[x]>>])
    [] Q.f = "TrimLeft0" -> Becomes(TrimL(Q.a), TrimL(Q.a))
    [] Q.f = "TrimRight0" -> Becomes(TrimR(Q.a), TrimR(Q.a))
    [] Q.f = "Trim" -> Becomes(TrimL(TrimR(Q.a)), TrimL(TrimR(Q.a)))
    [] Q.f = "TrimLeft1" -> IF Q.n < 0 \/ Q.n > Len(Q.a) THEN Keeps("!") ELSE IF Q.n = Len(Q.a) THEN Becomes(Open, Open) ELSE Becomes(From(Q.a, Q.n), From(Q.a, Q.n))
    [] Q.f = "TrimRight1" -> IF Inside(Q.n) THEN Becomes(Part(Q.a, 0, Len(Q.a) - Q.n), Part(Q.a, 0, Len(Q.a) - Q.n)) ELSE Becomes(Open, Open)
    [] Q.f \in {"Append", "AppendString"} -> Becomes(Q.a \o Q.b, Q.a \o Q.b)
    [] Q.f \in {"Assign", "AssignString"} -> Becomes(Q.b, Q.b)
    [] Q.f = "Copy" -> Keeps(Q.a)

METHODS == {"CharAt", "Subscript", "Contains", "StartsWith", "EndsWith", "LastIndexOf", "Replace", "ReplaceAll", "RemoveCharAt", "Split", "SplitBy",
            "Characters", "TrimLeft0", "TrimRight0", "Trim", "TrimLeft1", "TrimRight1", "Append", "AppendString", "Assign", "AssignString", "Copy"}
Answer == IF Q.f \in METHODS THEN Method ELSE Function

Shown(x) == IF x = Open THEN "?" ELSE x

Next == /\ st = "asked" /\ PrintT(<<"STR", k, Shown(Answer.r), Shown(Answer.v)>>) /\ st' = "answered" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws that tie the definitions to each other.                            *)
Splitting == Q.b # <<>> => Join(Split(Q.a, Q.b), Q.b) = Q.a /\ \A x \in DOMAIN Split(Q.a, Q.b) : Find(Split(Q.a, Q.b)[x], Q.b, 0) = -1
Finding == LET x == Find(Q.a, Q.b, 0) IN x # -1 => Q.a = Part(Q.a, 0, x) \o Q.b \o From(Q.a, x + Len(Q.b)) /\ FindLast(Q.a, Q.b) >= x
Replacing == Q.b # <<>> => ReplaceFrom(Q.a, Q.b, Q.c, 0) = Join(Split(Q.a, Q.b), Q.c)
Evaluating == Q.f = "streval" /\ Find(Q.a, <<"{", "{", "{">>, 0) = -1 => Eval(Q.a) = Q.a
Cutting == Inside(Q.n) => Part(Q.a, 0, Q.n) \o From(Q.a, Q.n) = Q.a
Ordered == Cardinality({x \in 1..3 : (x = 1 /\ Less(Q.a, Q.b)) \/ (x = 2 /\ Less(Q.b, Q.a)) \/ (x = 3 /\ Q.a = Q.b)}) = 1
Cases2 == Lower(Upper(Lower(Q.a))) = Lower(Q.a) /\ Len(Lower(Q.a)) = Len(Q.a)
=============================================================================
