------------------------------ MODULE SlangFiles ------------------------------
(***************************************************************************)
(* Files as sequences of bytes, and handles with one position each.        *)
(* A case is a history: operations [op, f, g, h, n, w, bytes] on files     *)
(* (names f and g) and handles (numbers of the harness' variables).        *)
(* State:                                                                  *)
(*   k, i   history and next operation                                     *)
(*   disk   what every file holds; Absent if there is none                 *)
(*   at     per handle: [f, mode, pos, eof, err, back, dir] or Closed.     *)
(*          back is the byte that was put back, if any; err whether a      *)
(*          transfer has failed                                            *)
(*          pos is -1 where the position is not specified (after opening   *)
(*          for appending); dir says whether the last transfer was a read  *)
(*          or a write, since one must not follow the other directly       *)
(*   old    closed handles whose number another file may have got since    *)
(*   log    answers: <<"is", n>>, <<"bytes", s>>, <<"ok">>, <<"refused">>, *)
(*          <<"any">> if it is not specified                               *)
(*   st     "run", "open" once nothing more is specified, "done"           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Absent, Closed

Cases == JsonDeserialize(IOEnv.CASES)
NAMES == {"f", "g", "none/x", "tmp0", "tmp1", "tmp2"}        \* tmp: a file without a name, one per handle
HANDLES == 0..2
NEWLINE == 10

VARIABLES k, i, disk, at, old, log, st
vars == <<k, i, disk, at, old, log, st>>

Op == Cases[k].ops[i]
Init == /\ k \in 1..Len(Cases) /\ i = 1 /\ log = <<>> /\ st = "run"
        /\ disk = [n \in NAMES |-> Absent] /\ at = [h \in HANDLES |-> Closed] /\ old = {}

----------------------------------------------------------------------------
Modes == {"r", "w", "a", "r+", "w+", "a+"}
Reads(m) == m \in {"r", "r+", "w+", "a+"}
Writes(m) == m # "r"
Appends(m) == m \in {"a", "a+"}

Min(a, b) == IF a < b THEN a ELSE b
Part(s, p, n) == SubSeq(s, p + 1, Min(p + n, Len(s)))
Zeros(n) == [x \in 1..n |-> 0]
\* bytes b written to s at p: what lies behind stays, a gap is filled with zeros
Put(s, p, b) == LET t == IF p > Len(s) THEN s \o Zeros(p - Len(s)) ELSE s IN SubSeq(t, 1, p) \o b \o SubSeq(t, p + Len(b) + 1, Len(t))

Step(r) == log' = Append(log, r) /\ i' = i + 1 /\ st' = IF i = Len(Cases[k].ops) THEN "done" ELSE "run"
Stop == st' = "open" /\ UNCHANGED <<i, log, disk, at>>
Quiet(r) == Step(r) /\ UNCHANGED <<disk, at>>
Users(f) == {h \in HANDLES : at[h] # Closed /\ at[h].f = f}

\* nothing is specified when two handles of one file are open and one of them writes
Open == LET clash == Users(Op.f) # {} /\ (Writes(Op.mode) \/ \E h \in Users(Op.f) : Writes(at[h].mode))
            possible == Op.f # "none/x" /\ (Op.mode \in {"r", "r+"} => disk[Op.f] # Absent)
        IN  IF clash THEN Stop
            ELSE IF at[Op.h] # Closed THEN IF Cases[k].api = "object" THEN Quiet(<<"!">>) ELSE Stop
            ELSE IF ~possible THEN Quiet(<<"is", 0>>)
            ELSE /\ Step(<<"is", 1>>)
                 /\ disk' = [disk EXCEPT ![Op.f] = IF Op.mode \in {"w", "w+"} \/ @ = Absent THEN <<>> ELSE @]
                 /\ at' = [at EXCEPT ![Op.h] = [f |-> Op.f, mode |-> Op.mode, pos |-> IF Appends(Op.mode) /\ Cases[k].api # "object" THEN -1 ELSE 0,
                                                eof |-> FALSE, err |-> FALSE, back |-> <<>>, dir |-> "none", size |-> Len(disk'[Op.f])]]
H == at[Op.h]
Content == disk[H.f]
\* what a reader sees: the byte that was put back in place of the one in the file
Seen == IF H.back = <<>> THEN Content ELSE SubSeq(Content, 1, H.pos) \o H.back \o SubSeq(Content, H.pos + 2, Len(Content))

Close == Step(<<"is", 0>>) /\ at' = [at EXCEPT ![Op.h] = Closed] /\ UNCHANGED disk

Write == IF ~Writes(H.mode) THEN (IF Op.op = "text" \/ Op.op = "char" THEN Stop ELSE Step(<<"refused">>) /\ UNCHANGED disk /\ at' = [at EXCEPT ![Op.h].err = TRUE])
         ELSE IF H.dir = "read" \/ H.eof THEN Stop
         ELSE LET p == IF Appends(H.mode) THEN Len(Content) ELSE H.pos
              IN  /\ Step(IF Op.op = "char" THEN <<"is", Op.bytes[1]>> ELSE <<"ok">>)
                  /\ disk' = [disk EXCEPT ![H.f] = IF Op.bytes = <<>> THEN @ ELSE Put(@, p, Op.bytes)]
                  /\ at' = [at EXCEPT ![Op.h].pos = IF Op.bytes = <<>> THEN @ ELSE p + Len(Op.bytes), ![Op.h].dir = "write"]

\* n bytes wanted; the end is noticed when fewer are left
Take(n, r(_)) == IF ~Reads(H.mode) \/ H.dir = "write" \/ H.pos < 0 THEN Stop
                 ELSE LET b == Part(Seen, H.pos, n)
                      IN  /\ Step(r(b)) /\ UNCHANGED disk
                          /\ at' = [at EXCEPT ![Op.h].pos = @ + Len(b), ![Op.h].eof = @ \/ Len(b) < n, ![Op.h].dir = "read", ![Op.h].back = IF b = <<>> THEN @ ELSE <<>>]
All(b) == <<"bytes", b>>
Whole(b) == IF Len(b) < Op.n THEN <<"any">> ELSE <<"bytes", b>>
Code(b) == IF b = <<>> THEN <<"is", -1>> ELSE <<"is", b[1]>>

Rest == Part(Seen, H.pos, Len(Content))
Lines == {x \in 1..Len(Rest) : Rest[x] = NEWLINE}
\* up to and with the end of the line, at most n - 1 bytes
Line == IF ~Reads(H.mode) \/ H.dir = "write" \/ H.pos < 0 \/ Op.n < 2 THEN Stop
        ELSE LET l == IF Lines = {} THEN Len(Rest) ELSE CHOOSE x \in Lines : \A y \in Lines : x <= y
                 n == Min(l, Op.n - 1)
                 b == SubSeq(Rest, 1, n)
             IN  /\ Step(<<"bytes", b>>) /\ UNCHANGED disk
                 /\ at' = [at EXCEPT ![Op.h].pos = @ + n, ![Op.h].eof = @ \/ (Lines = {} /\ l < Op.n - 1), ![Op.h].dir = "read", ![Op.h].back = IF b = <<>> THEN @ ELSE <<>>]

Seek == LET from == CASE Op.w = "set" -> 0 [] Op.w = "cur" -> H.pos [] Op.w = "end" -> Len(Content)
        IN  IF from < 0 \/ from + Op.n < 0 \/ (H.back # <<>> /\ Op.w = "cur") THEN Stop
            ELSE Step(<<"is", 0>>) /\ UNCHANGED disk /\ at' = [at EXCEPT ![Op.h].pos = from + Op.n, ![Op.h].eof = FALSE, ![Op.h].dir = "none", ![Op.h].back = <<>>, ![Op.h].err = @ /\ Op.op # "rewind"]

\* the byte that was read last, or another one, is put back and read next; only one can be sure to fit
Unget == IF Op.n < 0 THEN Quiet(<<"is", -1>>)
         ELSE IF H.dir # "read" \/ H.pos < 1 \/ H.pos > Len(Content) \/ H.back # <<>> THEN Stop
         ELSE Step(<<"is", Op.n>>) /\ UNCHANGED disk /\ at' = [at EXCEPT ![Op.h].pos = @ - 1, ![Op.h].back = <<Op.n>>, ![Op.h].eof = FALSE]

OnHandle ==
  CASE Op.op = "close" -> Close
    [] Op.op \in {"text", "value", "char"} -> Write
    [] Op.op = "flush" -> IF H.back # <<>> THEN Stop ELSE Step(<<"is", 0>>) /\ UNCHANGED disk /\ at' = [at EXCEPT ![Op.h].dir = IF @ = "write" THEN "none" ELSE @]
    [] Op.op = "read" -> Take(Op.n, All)
    [] Op.op = "all" -> IF H.back # <<>> THEN Stop ELSE Take(Len(Content) + 1, All)
    [] Op.op = "get" -> Take(Op.n, Whole)
    [] Op.op = "code" -> Take(1, Code)
    [] Op.op = "line" -> Line
    [] Op.op \in {"seek", "rewind"} -> Seek
    [] Op.op = "tell" -> IF H.pos < 0 THEN Stop ELSE Quiet(<<"is", H.pos>>)
    [] Op.op = "eof" -> Quiet(<<"is", IF H.eof THEN 1 ELSE 0>>)
    [] Op.op = "unget" -> Unget
    [] Op.op = "failed" -> Quiet(<<"is", IF H.err THEN 1 ELSE 0>>)
    [] Op.op = "clear" -> Step(<<"is", 0>>) /\ UNCHANGED disk /\ at' = [at EXCEPT ![Op.h].eof = FALSE, ![Op.h].err = FALSE]
    [] Op.op = "size" -> Quiet(<<"is", H.size>>)
    [] Op.op = "isopen" -> Quiet(<<"is", 1>>)

\* a handle that is not open: the call is refused, for handles by ending the program with an error
OnClosed == IF Op.h \in old THEN Stop
            ELSE IF Op.op = "isopen" THEN Quiet(<<"is", 0>>)
            ELSE IF Op.op = "size" THEN Quiet(<<"any">>)
            ELSE IF Op.op = "close" /\ Cases[k].api = "object" THEN Quiet(<<"is", 0>>)
            ELSE log' = Append(log, <<"error">>) /\ i' = i + 1 /\ st' = "done" /\ UNCHANGED <<disk, at>>

Remove == IF Users(Op.f) # {} THEN Stop
          ELSE Step(<<"is", IF disk[Op.f] = Absent THEN -1 ELSE 0>>) /\ disk' = [disk EXCEPT ![Op.f] = Absent] /\ UNCHANGED at
Rename == IF Users(Op.f) \cup Users(Op.g) # {} THEN Stop
          ELSE IF disk[Op.f] = Absent THEN Quiet(<<"is", -1>>)
          ELSE /\ Step(<<"is", 0>>) /\ UNCHANGED at
               /\ disk' = IF Op.f = Op.g THEN disk ELSE [disk EXCEPT ![Op.g] = disk[Op.f], ![Op.f] = Absent]

Next == /\ st = "run"
        /\ CASE Op.op = "open" -> Open
             [] Op.op = "remove" -> Remove
             [] Op.op = "rename" -> Rename
             [] Op.op = "exists" -> Quiet(<<"is", IF disk[Op.f] = Absent THEN 0 ELSE 1>>)
             [] OTHER -> IF at[Op.h] = Closed THEN OnClosed ELSE OnHandle
        /\ (st' # "run" => PrintT(<<"FILES", k, log', [n \in {"f", "g"} |-> IF disk'[n] = Absent THEN <<-1>> ELSE disk'[n]],
                                    [n \in {"f", "g"} |-> IF \E h \in HANDLES : at'[h] # Closed /\ at'[h].f = n THEN 1 ELSE 0]>>))
        /\ old' = IF Op.op = "open" /\ at'[Op.h] # Closed /\ Cases[k].api = "handle" THEN {h \in HANDLES : at'[h] = Closed} ELSE old
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == /\ \A n \in NAMES : disk[n] # Absent => \A x \in DOMAIN disk[n] : disk[n][x] \in 0..255
          /\ \A h \in HANDLES : at[h] # Closed => at[h].mode \in Modes /\ disk[at[h].f] # Absent
\* only writing, opening for writing, removing and renaming change what a file holds; appending keeps what was there
Keeps == [][\A n \in NAMES : disk'[n] # disk[n] => Op.op \in {"open", "text", "value", "char", "remove", "rename"}]_vars
AppendKeeps == [][st = "run" /\ Op.op \in {"text", "value", "char"} /\ at[Op.h] # Closed /\ Appends(at[Op.h].mode)
                  => LET f == at[Op.h].f IN SubSeq(disk'[f], 1, Len(disk[f])) = disk[f]]_vars
\* what was written is read back from the same position
ReadBack == [][st = "run" /\ Op.op \in {"text", "value", "char"} /\ at[Op.h] # Closed /\ disk' # disk
               => LET h == at'[Op.h] IN SubSeq(disk'[h.f], h.pos - Len(Op.bytes) + 1, h.pos) = Op.bytes]_vars
\* putting back the byte that was just read leaves no trace but the end not being noticed any more
PutBack == [][st = "run" /\ Op.op = "unget" /\ at[Op.h] # Closed /\ at'[Op.h] # at[Op.h]
              => at'[Op.h].pos = at[Op.h].pos - 1 /\ disk' = disk]_vars
=============================================================================
