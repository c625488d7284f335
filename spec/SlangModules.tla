---------------------------- MODULE SlangModules ----------------------------
(***************************************************************************)
(* How a program made of several files is loaded, analysed and started.    *)
(*                                                                         *)
(* A case describes files (path, folder, the names they import, whether    *)
(* they contain an error), the main file and the library folders.  State:  *)
(*   k       index of the case                                             *)
(*   stack   files being loaded, each with the imports still to be done    *)
(*   loaded  files loaded so far, in order                                 *)
(*   st      "load", then "run" (the program is executed) or "error";      *)
(*           "open" if the language does not say what happens              *)
(*                                                                         *)
(* An imported name is looked up next to the importing file first and then *)
(* in the folder of the program and the library folders; which of them     *)
(* wins if several have the module is left open.  Nothing is executed unless every loaded file is   *)
(* free of errors.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, stack, loaded, st
vars == <<k, stack, loaded, st>>

C == Cases[k]
Paths == {C.files[i].path : i \in DOMAIN C.files}
File(p) == C.files[CHOOSE i \in DOMAIN C.files : C.files[i].path = p]
Range(s) == {s[i] : i \in DOMAIN s}

\* the file that module m of folder d denotes, "" if there is none
Lookup(d, m) ==
  LET base == d \o "/" \o m
  IN CASE base \o ".slang" \in Paths -> base \o ".slang"
       [] base \o ".os" \in Paths -> base \o ".os"
       [] base \o "/All.slang" \in Paths -> base \o "/All.slang"
       [] base \o "/All.os" \in Paths -> base \o "/All.os"
       [] OTHER -> ""

Candidates(f, m) ==
  LET own == Lookup(File(f).dir, m)
  IN IF own # "" THEN {own} ELSE {Lookup(l, m) : l \in Range(C.libs) \union {File(C.main).dir}} \ {""}

\* folders of files that have been loaded may be searched, too: then the outcome depends on them
Nearby(f, m) == /\ Lookup(File(f).dir, m) = ""
                /\ \E g \in Range(loaded) : Lookup(File(g).dir, m) \notin Candidates(f, m) \union {""}

Init == /\ k \in 1..Len(Cases)
        /\ stack = <<[f |-> Cases[k].main, todo |-> Cases[k].files[CHOOSE i \in DOMAIN Cases[k].files : Cases[k].files[i].path = Cases[k].main].imports]>>
        /\ loaded = <<Cases[k].main>>
        /\ st = IF \E i \in DOMAIN Cases[k].files : Cases[k].files[i].path = Cases[k].main /\ Cases[k].files[i].fault = "load" THEN "error" ELSE "load"

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)

\* an import statement of the file on top of the stack is carried out
Import ==
  /\ st = "load" /\ stack # <<>> /\ Top.todo # <<>>
  /\ LET m == Head(Top.todo)
         done == Append(Rest, [Top EXCEPT !.todo = Tail(@)])
         cs == Candidates(Top.f, m)
     IN IF Nearby(Top.f, m)
        THEN st' = "open" /\ UNCHANGED <<stack, loaded>>
        ELSE IF cs = {}
        THEN st' = "error" /\ UNCHANGED <<stack, loaded>>
        ELSE \E c \in cs :
               IF c \in Range(loaded)
               THEN stack' = done /\ UNCHANGED <<loaded, st>>
               ELSE /\ loaded' = Append(loaded, c)
                    /\ stack' = Append(done, [f |-> c, todo |-> File(c).imports])
                    /\ st' = IF File(c).fault = "load" THEN "error" ELSE st
  /\ UNCHANGED k

Leave == /\ st = "load" /\ stack # <<>> /\ Top.todo = <<>>
         /\ stack' = Rest
         /\ UNCHANGED <<k, loaded, st>>

\* everything is loaded: the bodies of all methods are checked, then the program starts
Start == /\ st = "load" /\ stack = <<>>
         /\ st' = IF \E f \in Range(loaded) : File(f).fault = "body" THEN "error" ELSE "run"
         /\ UNCHANGED <<k, stack, loaded>>

Report == /\ st \in {"run", "error", "open"}
          /\ PrintT(<<"LOAD", k, st, loaded>>)
          /\ st' = "end"
          /\ UNCHANGED <<k, stack, loaded>>

Next == Import \/ Leave \/ Start \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* every file is loaded at most once, so loading ends
Once == \A i, j \in DOMAIN loaded : loaded[i] = loaded[j] => i = j
Bounded == Len(stack) <= Len(C.files) /\ Len(loaded) <= Len(C.files)
\* files on the stack are being loaded for the first time
Nested == \A i, j \in DOMAIN stack : stack[i].f = stack[j].f => i = j
\* nothing is executed as long as a loaded file has an error
Clean == st = "run" => \A f \in Range(loaded) : File(f).fault = ""
\* a running program has everything it imports, directly or not
Complete == st = "run" => \A f \in Range(loaded) : \A i \in DOMAIN File(f).imports : Candidates(f, File(f).imports[i]) \cap Range(loaded) # {}
=============================================================================
