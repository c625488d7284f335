--------------------------- MODULE SlangCollections ---------------------------
(***************************************************************************)
(* The collections of the library as sequences, stacks, queues, sets, bags *)
(* and finite maps.  A case is a history: a kind and a sequence of         *)
(* operations [op, a, b].  Positions are counted from 0.  A range has a    *)
(* first and last number and a step: from = <<first, last, step>>.         *)
(* State:                                                                  *)
(*   k, i     history and next operation                                   *)
(*   c        contents: a sequence of values; of <<key, value>> for maps   *)
(*   o        contents of the copy that was taken last                     *)
(*   log      what each operation answers, with the contents after it      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, i, c, o, log
vars == <<k, i, c, o, log>>

Kind == Cases[k].kind
Op == Cases[k].ops[i]

\* all numbers of a range, upwards or downwards
RECURSIVE Numbers(_, _, _)
Numbers(a, b, s) == IF (s > 0 /\ a > b) \/ (s < 0 /\ a < b) THEN <<>> ELSE <<a>> \o Numbers(a + s, b, s)
First(x) == IF Cases[x].kind = "Range" THEN Numbers(Cases[x].from[1], Cases[x].from[2], Cases[x].from[3]) ELSE <<>>

Init == k \in 1..Len(Cases) /\ i = 1 /\ c = First(k) /\ o = First(k) /\ log = <<>>

----------------------------------------------------------------------------
(* An operation has an answer and leaves a sequence: [r, s].  The answer   *)
(* "!" means that an exception is raised.                                  *)
Fail(s) == [r |-> <<"!">>, s |-> s]
Done(s) == [r |-> <<"ok">>, s |-> s]
Says(v, s) == [r |-> <<"is", v>>, s |-> s]

Position(s, v) == IF \E x \in DOMAIN s : s[x] = v THEN (CHOOSE x \in DOMAIN s : s[x] = v /\ \A y \in 1..x - 1 : s[y] # v) - 1 ELSE -1
RemoveAt(s, n) == SubSeq(s, 1, n) \o SubSeq(s, n + 2, Len(s))
InsertAt(s, n, v) == SubSeq(s, 1, n) \o <<v>> \o SubSeq(s, n + 1, Len(s))
Within(s, n) == n >= 0 /\ n < Len(s)
Bool(b) == IF b THEN 1 ELSE 0

\* what all kinds but maps have in common
Common(s) ==
  CASE Op.op \in {"at", "sub"} -> IF Within(s, Op.a) THEN Says(s[Op.a + 1], s) ELSE Fail(s)
    [] Op.op = "erase" -> IF Within(s, Op.a) THEN Done(RemoveAt(s, Op.a)) ELSE Fail(s)
    [] Op.op = "clear" -> Done(<<>>)
    [] Op.op = "indexOf" -> Says(Position(s, Op.a), s)
    [] Op.op = "contains" -> Says(Bool(Position(s, Op.a) # -1), s)
    [] Op.op = "first" -> IF s = <<>> THEN Fail(s) ELSE Says(Head(s), s)
    [] Op.op = "last" -> IF s = <<>> THEN Fail(s) ELSE Says(s[Len(s)], s)
    \* iterators: none of them has a current element at first, none goes on behind the last one, all can start again
    [] Op.op \in {"fresh", "over"} -> Fail(s)
    [] Op.op = "again" -> IF s = <<>> THEN Fail(s) ELSE Says(Head(s), s)
    [] Op.op = "current" -> IF Len(s) < 2 THEN Fail(s) ELSE Says(s[2], s)

Sequence(s) ==
  CASE Op.op = "push_back" -> Done(Append(s, Op.a))
    [] Op.op = "push_front" -> Done(<<Op.a>> \o s)
    [] Op.op = "pop_back" -> IF s = <<>> THEN Fail(s) ELSE Done(SubSeq(s, 1, Len(s) - 1))
    [] Op.op = "pop_front" -> IF s = <<>> THEN Fail(s) ELSE Done(Tail(s))
    [] Op.op = "insert" -> IF Op.a >= 0 /\ Op.a <= Len(s) THEN Done(InsertAt(s, Op.a, Op.b)) ELSE Fail(s)
    [] OTHER -> Common(s)
\* the newest element is the last one; a queue shows the newest one, too
StackOf(s) ==
  CASE Op.op \in {"push", "enqueue"} -> Done(Append(s, Op.a))
    [] Op.op = "pop" -> IF s = <<>> THEN Fail(s) ELSE Says(s[Len(s)], SubSeq(s, 1, Len(s) - 1))
    [] Op.op = "dequeue" -> IF s = <<>> THEN Fail(s) ELSE Says(Head(s), Tail(s))
    [] Op.op = "peek" -> IF s = <<>> THEN Fail(s) ELSE Says(s[Len(s)], s)
    [] OTHER -> Common(s)
\* in ascending order; equal elements only in a bag
Sorted(s, v) == LET n == Cardinality({x \in DOMAIN s : s[x] <= v}) IN InsertAt(s, n, v)
SetOf(s) ==
  CASE Op.op = "insert" -> IF Kind = "Set" /\ Position(s, Op.a) # -1 THEN Fail(s) ELSE Done(Sorted(s, Op.a))
    [] OTHER -> Common(s)
\* in the order the keys came in
Keys(s) == [x \in DOMAIN s |-> s[x][1]]
MapOf(s) == LET p == Position(Keys(s), Op.a) IN
  CASE Op.op = "insert" -> Done(Append(s, <<Op.a, Op.b>>))
    [] Op.op = "put" -> IF p = -1 THEN Fail(s) ELSE Done([s EXCEPT ![p + 1][2] = Op.b])
    [] Op.op \in {"get", "sub"} -> IF p = -1 THEN Fail(s) ELSE Says(s[p + 1][2], s)
    [] Op.op = "contains" -> Says(Bool(p # -1), s)
    [] Op.op = "indexOf" -> Says(p, s)
    [] Op.op = "remove" -> Done(IF p = -1 THEN s ELSE RemoveAt(s, p))
    [] Op.op = "clear" -> Done(<<>>)
    [] Op.op = "first" -> IF s = <<>> THEN Fail(s) ELSE Says(s[1][2], s)
    [] Op.op = "last" -> IF s = <<>> THEN Fail(s) ELSE Says(s[Len(s)][2], s)

Result == CASE Kind \in {"List", "Vector", "DoubleLinkedList"} -> Sequence(c)
            [] Kind \in {"Stack", "Queue"} -> StackOf(c)
            [] Kind \in {"Set", "Bag"} -> SetOf(c)
            [] Kind = "Map" -> MapOf(c)
            [] Kind = "Range" -> Common(c)

Step == /\ i <= Len(Cases[k].ops) /\ i' = i + 1 /\ UNCHANGED k
        /\ CASE Op.op = "copy" -> o' = c /\ UNCHANGED c /\ log' = Append(log, <<"ok", c, c>>)
             [] Op.op = "swap" -> o' = c /\ c' = o /\ log' = Append(log, <<"ok", o, c>>)
             [] OTHER -> c' = Result.s /\ UNCHANGED o /\ log' = Append(log, Result.r \o <<Result.s, o>>)
Report == /\ i = Len(Cases[k].ops) + 1 /\ PrintT(<<"COLL", k, log>>) /\ i' = i + 1 /\ UNCHANGED <<k, c, o, log>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ascending == Kind \in {"Set", "Bag"} => \A x, y \in DOMAIN c : x < y => c[x] <= c[y]
Different == Kind = "Set" => \A x, y \in DOMAIN c : x # y => c[x] # c[y]
\* the specification is asked about maps only with keys that a map can have once
\* the numbers of a range lie between its ends
Between == Kind = "Range" => LET f == Cases[k].from IN \A x \in DOMAIN c : (f[3] > 0 => c[x] \in f[1]..f[2]) /\ (f[3] < 0 => c[x] \in f[2]..f[1])
OneKeyOnce == Kind = "Map" => \A x, y \in DOMAIN c : x # y => c[x][1] # c[y][1]
\* a refused operation changes nothing
Refused == [][Len(log') > Len(log) /\ log'[Len(log')][1] = "!" => c' = c]_vars
=============================================================================
