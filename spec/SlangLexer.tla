------------------------------ MODULE SlangLexer ------------------------------
(***************************************************************************)
(* From characters to tokens.  A case is a text, given as a sequence of    *)
(* characters.  State:                                                     *)
(*   k      index of the case                                              *)
(*   i      position of the next character                                 *)
(*   mode   "code", "line" (comment up to the end of the line), "block"    *)
(*          (comment up to the next star-slash) or "string"                *)
(*   word   what has been read of a word or string                         *)
(*   toks   tokens so far: <<kind, text>>, kind "word", "punct", "string"  *)
(*   st     "read", then "ok" or "error"                                   *)
(* Blanks, tabs, line breaks and comments end a word and are otherwise     *)
(* without meaning; adjacent operator characters are joined to operators   *)
(* afterwards (Join), whether there is room between them or not.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, i, mode, word, toks, st
vars == <<k, i, mode, word, toks, st>>

T == Cases[k]
C == T[i]
D == IF i < Len(T) THEN T[i + 1] ELSE ""

Blank == {" ", "\t", "\n", "\r"}
Punct == {".", ",", ";", ":", "=", "(", ")", "[", "]", "{", "}", "!", "?", "<", ">", "+", "-", "*", "/", "%", "&", "|", "~", "'"}

Flush == IF word = "" THEN toks ELSE Append(toks, <<"word", word>>)

Init == /\ k \in 1..Len(Cases)
        /\ i = 1 /\ mode = "code" /\ word = "" /\ toks = <<>> /\ st = "read"

Reading == st = "read" /\ i <= Len(T)
More(n) == i' = i + n /\ UNCHANGED <<k, st>>

Comment == /\ Reading /\ mode = "code"
           /\ \/ C = "#" /\ mode' = "line" /\ More(1)
              \/ C = "/" /\ D = "/" /\ mode' = "line" /\ More(2)
              \/ C = "/" /\ D = "*" /\ mode' = "block" /\ More(2)
           /\ toks' = Flush /\ word' = ""

InComment == /\ Reading /\ mode \in {"line", "block"}
             /\ \/ mode = "line" /\ mode' = (IF C = "\n" THEN "code" ELSE "line") /\ More(1)
                \/ mode = "block" /\ C = "*" /\ D = "/" /\ mode' = "code" /\ More(2)
                \/ mode = "block" /\ ~(C = "*" /\ D = "/") /\ mode' = "block" /\ More(1)
             /\ UNCHANGED <<word, toks>>

String == /\ Reading /\ mode = "code" /\ C = "\""
          /\ toks' = Flush /\ word' = "" /\ mode' = "string" /\ More(1)

InString == /\ Reading /\ mode = "string"
            /\ \/ C = "\"" /\ toks' = Append(toks, <<"string", word>>) /\ word' = "" /\ mode' = "code" /\ More(1)
               \/ C = "\\" /\ word' = word \o D /\ More(2) /\ UNCHANGED <<toks, mode>>           \* the next character stands for itself
               \/ C \notin {"\"", "\\"} /\ word' = word \o C /\ More(1) /\ UNCHANGED <<toks, mode>>

Code == /\ Reading /\ mode = "code" /\ C \notin {"#", "\""} /\ ~(C = "/" /\ D \in {"/", "*"})
        /\ \/ C \in Blank /\ toks' = Flush /\ word' = ""
           \/ C \in Punct /\ toks' = Append(Flush, <<"punct", C>>) /\ word' = ""
           \/ C \notin Blank \union Punct /\ word' = word \o C /\ toks' = toks
        /\ mode' = mode /\ More(1)

End == /\ st = "read" /\ i > Len(T)
       /\ st' = IF mode \in {"block", "string"} THEN "error" ELSE "ok"
       /\ toks' = IF mode = "code" THEN Flush ELSE toks
       /\ word' = "" /\ UNCHANGED <<k, i, mode>>

----------------------------------------------------------------------------
(* Joining of adjacent tokens.                                             *)
PAIRS == {"&&", "||", "!&", "!|", "..", "--", "++", "<<", ">>", "[]"}
ASSIGNS == {"==", "===", "!==", "&=", "|=", "!=", ">=", "<=", "+=", "/=", "%=", "*=", "-="}

RECURSIVE Fold(_, _, _)
Fold(s, done, set) ==
  IF s = <<>> THEN done
  ELSE IF /\ done # <<>> /\ done[Len(done)][1] = "punct" /\ s[1][1] = "punct" /\ done[Len(done)][2] \o s[1][2] \in set
       THEN Fold(Tail(s), [done EXCEPT ![Len(done)] = <<"punct", @[2] \o s[1][2]>>], set)
       ELSE Fold(Tail(s), Append(done, s[1]), set)

Joined(s) == Fold(Fold(s, <<>>, PAIRS), <<>>, ASSIGNS)

Report == /\ st \in {"ok", "error"}
          /\ PrintT(<<"LEX", k, st, Joined(toks)>>)
          /\ st' = "end"
          /\ UNCHANGED <<k, i, mode, word, toks>>

Next == Comment \/ InComment \/ String \/ InString \/ Code \/ End \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Range(s) == {s[j] : j \in DOMAIN s}
\* no token contains a blank or an operator character unless it is a string, no token is empty unless it is a string
Plain == \A t \in Range(toks) : t[1] # "string" => t[2] # "" /\ t[2] \notin Blank
\* nothing is pending in a comment
Quiet == mode \in {"line", "block"} => word = ""
\* exactly one action is possible until the text has been read
Decided == st = "read" => Cardinality({a \in {"Comment", "InComment", "String", "InString", "Code", "End"} :
    \/ a = "Comment" /\ Reading /\ mode = "code" /\ (C = "#" \/ (C = "/" /\ D \in {"/", "*"}))
    \/ a = "InComment" /\ Reading /\ mode \in {"line", "block"}
    \/ a = "String" /\ Reading /\ mode = "code" /\ C = "\""
    \/ a = "InString" /\ Reading /\ mode = "string"
    \/ a = "Code" /\ Reading /\ mode = "code" /\ C \notin {"#", "\""} /\ ~(C = "/" /\ D \in {"/", "*"})
    \/ a = "End" /\ i > Len(T)}) = 1
=============================================================================
