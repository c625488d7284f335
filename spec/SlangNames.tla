------------------------------ MODULE SlangNames ------------------------------
(***************************************************************************)
(* Which declaration a name denotes.  Scopes are paths: <<>> is the global *)
(* one, <<"A", "B">> the namespace B in A; classes and methods are scopes  *)
(* as well.  A case is                                                     *)
(*   decls   set of [p, n, vis]: scope p declares n, public or private     *)
(*   bases   set of [p, b]: the class p is derived from the class b        *)
(*   at      scope in which the reference stands                           *)
(*   ref     the reference, a sequence of names                            *)
(* The lookup is a walk: outwards from scope to scope until one has the    *)
(* first name (itself or by inheritance), then downwards along the others. *)
(* State:                                                                  *)
(*   k      index of the case                                              *)
(*   scope  where the walk is                                              *)
(*   j      how many names of the reference have been found                *)
(*   st     "look", then "found" (scope and name are the declaration),     *)
(*          "missing", "hidden" (private, reached from outside) or "open"  *)
(*          (private and qualified, but from within)                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)   \* [worlds |-> <<[decls, bases]>>, refs |-> <<[world, at, ref]>>]

VARIABLES k, scope, j, st
vars == <<k, scope, j, st>>

K == Cases.refs[k]
W == Cases.worlds[K.world]
Range(s) == {s[x] : x \in DOMAIN s}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

Own(p, n) == {d \in Range(W.decls) : d.p = p /\ d.n = n}
Bases(p) == {e.b : e \in {x \in Range(W.bases) : x.p = p}}
RECURSIVE Has(_, _)
\* the declaration of n a scope has: its own or an inherited one
Has(p, n) == IF Own(p, n) # {} THEN Own(p, n) ELSE UNION {Has(b, n) : b \in Bases(p)}
One(p, n) == CHOOSE d \in Has(p, n) : TRUE

Init == /\ k \in 1..Len(Cases.refs)
        /\ scope = Cases.refs[k].at /\ j = 0 /\ st = "look"

\* the first name
Inside == /\ st = "look" /\ j = 0 /\ Has(scope, K.ref[1]) # {}
          /\ LET d == One(scope, K.ref[1]) IN
             /\ scope' = d.p /\ j' = 1
             /\ st' = IF d.vis = "private" /\ d.p # scope /\ ~Prefix(d.p, scope) THEN "hidden" ELSE "look"     \* of a base class
          /\ UNCHANGED k
Outwards == /\ st = "look" /\ j = 0 /\ Has(scope, K.ref[1]) = {}
            /\ IF scope = <<>> THEN st' = "missing" /\ UNCHANGED scope ELSE scope' = Front(scope) /\ UNCHANGED st
            /\ UNCHANGED <<k, j>>
\* the others: no way back
Downwards == /\ st = "look" /\ j > 0 /\ j < Len(K.ref)
             /\ LET p == Append(scope, K.ref[j]) IN
                IF Has(p, K.ref[j + 1]) = {} THEN st' = "missing" /\ UNCHANGED <<scope, j>>
                ELSE LET d == One(p, K.ref[j + 1]) IN
                     /\ scope' = d.p /\ j' = j + 1
                     /\ st' = IF d.vis = "public" THEN "look" ELSE IF Prefix(d.p, K.at) THEN "open" ELSE "hidden"
             /\ UNCHANGED k
Done == st = "look" /\ j = Len(K.ref) /\ st' = "found" /\ UNCHANGED <<k, scope, j>>
Report == /\ st \in {"found", "missing", "hidden", "open"}
          /\ PrintT(<<"NAME", k, st, scope>>)
          /\ st' = "end" /\ UNCHANGED <<k, scope, j>>

Next == Inside \/ Outwards \/ Downwards \/ Done \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Last == K.ref[Len(K.ref)]
\* what is found is a declaration of the last name
Declared == st = "found" => Own(scope, Last) # {}
\* an unqualified name never denotes something outside while a scope further inside has it
Innermost == st = "found" /\ Len(K.ref) = 1 /\ Prefix(scope, K.at) =>
               \A n \in Len(scope) + 1 .. Len(K.at) : Own(SubSeq(K.at, 1, n), Last) = {}
\* a name qualified from the outermost namespace on denotes the declaration at that path, unless a name further inside hides the first part
Absolute == st = "found" /\ Len(K.ref) > 1 /\ Bases(Append(scope, Last)) = {} /\ (\A n \in 1..Len(K.at) : Has(SubSeq(K.at, 1, n), K.ref[1]) = {}) =>
               (\E e \in Range(W.bases) : e.b = scope) \/ scope = Front(K.ref)
\* nothing private is reached from outside
Private == st = "found" => \A d \in Own(scope, Last) : d.vis = "private" => Prefix(d.p, K.at)
\* one declaration per name and scope
Unique == \A d, e \in Range(W.decls) : d.p = e.p /\ d.n = e.n => d = e
=============================================================================
