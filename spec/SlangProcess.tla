----------------------------- MODULE SlangProcess -----------------------------
(***************************************************************************)
(* The interpreter as a process: command line, input, environment, output  *)
(* and exit status.  A case is                                             *)
(*   argv    the command line behind the name of the interpreter           *)
(*   files   what the scripts named there are: "good", "bad" (does not     *)
(*           compile); others do not exist                                 *)
(*   prog    the statements of the good one: [a, t, n, line]               *)
(*   input   lines of the standard input without leading blanks            *)
(*   env     environment: sequence of <<name, value>>                      *)
(* State:                                                                  *)
(*   k, i    case and position on the command line                         *)
(*   ph      "options", "start", "run", "end"                              *)
(*   opts    options given so far                                          *)
(*   quiet, verbose   what the last of -q and -v says                      *)
(*   script, args     script ("" when none) and what it is given           *)
(*   pc, inp, env, mode     of the running program: next statement, next   *)
(*           line of input, environment, stream endl() goes to             *)
(*   out, err               what has been written                          *)
(*   status                 -1 while running                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, i, ph, opts, quiet, verbose, script, args, pc, inp, env, mode, out, err, status
vars == <<k, i, ph, opts, quiet, verbose, script, args, pc, inp, env, mode, out, err, status>>
run == <<pc, inp, env, mode>>

K == Cases[k]
Pairs(s) == {s[x] : x \in DOMAIN s}
Names(s) == {p[1] : p \in Pairs(s)}
Value(s, n) == IF n \in Names(s) THEN (CHOOSE p \in Pairs(s) : p[1] = n)[2] ELSE ""

Init == /\ k \in 1..Len(Cases)
        /\ i = 1 /\ ph = "options" /\ opts = {} /\ quiet = FALSE /\ verbose = FALSE
        /\ script = "" /\ args = <<>> /\ pc = 1 /\ inp = 1 /\ mode = "out"
        /\ env = {<<p[1], p[2]>> : p \in Pairs(Cases[k].env)}
        /\ out = "" /\ err = "" /\ status = -1

----------------------------------------------------------------------------
FLAGS == {"--debug", "-h", "--help", "--skip-sanitycheck", "--syntax", "--tokens", "--version"}
Arg == K.argv[i]
Taking == ph = "options" /\ i <= Len(K.argv)
End(n) == ph' = "end" /\ status' = n

Flag == /\ Taking /\ script = "" /\ Arg \in FLAGS
        /\ opts' = opts \union {Arg} /\ i' = i + 1
        /\ UNCHANGED <<k, ph, quiet, verbose, script, args, run, out, err, status>>
Quiet == /\ Taking /\ script = "" /\ Arg \in {"-q", "--quiet", "-v", "--verbose"}
         /\ quiet' = (Arg \in {"-q", "--quiet"})
         /\ verbose' = (verbose \/ Arg \in {"-v", "--verbose"})
         /\ i' = i + 1
         /\ UNCHANGED <<k, ph, opts, script, args, run, out, err, status>>
Folder == /\ Taking /\ script = "" /\ Arg \in {"-l", "--library"} /\ i < Len(K.argv)
          /\ i' = i + 2
          /\ UNCHANGED <<k, ph, opts, quiet, verbose, script, args, run, out, err, status>>
\* the first word that is no option, or the one behind -f
Script == /\ Taking /\ script = ""
          /\ \/ Arg \in {"-f", "--file"} /\ i < Len(K.argv) /\ script' = K.argv[i + 1] /\ i' = i + 2
             \/ Arg \notin FLAGS \union {"-q", "--quiet", "-v", "--verbose", "-l", "--library", "-f", "--file"}
                /\ script' = Arg /\ i' = i + 1
          /\ args' = <<script'>>
          /\ UNCHANGED <<k, ph, opts, quiet, verbose, run, out, err, status>>
\* everything behind the script belongs to it
Given == /\ Taking /\ script # ""
         /\ args' = Append(args, Arg) /\ i' = i + 1
         /\ UNCHANGED <<k, ph, opts, quiet, verbose, script, run, out, err, status>>
Lacking == /\ Taking /\ script = "" /\ Arg \in {"-l", "--library", "-f", "--file"} /\ i = Len(K.argv)
           /\ End(255)
           /\ UNCHANGED <<k, i, opts, quiet, verbose, script, args, run, out, err>>

Start == /\ ph = "options" /\ i > Len(K.argv)
         /\ IF opts \intersect {"--debug", "--version", "-h", "--help"} # {} \/ script = "" THEN End(0) /\ UNCHANGED out
            ELSE IF script \notin Names(K.files) \/ Value(K.files, script) = "bad"
                 THEN End(IF "--tokens" \in opts /\ script \in Names(K.files) THEN -2 ELSE 255) /\ UNCHANGED out
            ELSE IF "--tokens" \in opts THEN End(0) /\ UNCHANGED out
            ELSE IF "--syntax" \in opts THEN End(0) /\ out' = "Syntax check done, no errors found.\n"
            ELSE ph' = "run" /\ UNCHANGED <<out, status>>
         /\ UNCHANGED <<k, i, opts, quiet, verbose, script, args, run, err>>

----------------------------------------------------------------------------
(* The program.                                                            *)
S == K.prog[pc]
Running == ph = "run" /\ pc <= Len(K.prog)
\* print obeys -q and -v, the other functions do not
Printed(t) == IF quiet THEN "" ELSE t \o (IF verbose THEN "   [" \o ToString(S.line) \o "]" ELSE "") \o "\n"
Stays == UNCHANGED <<k, i, ph, opts, quiet, verbose, script, args, status>>
Go == pc' = pc + 1 /\ Stays

RECURSIVE Lines(_)
Lines(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "\n" \o Lines(Tail(s))

Output == /\ Running /\ S.a \in {"print", "write", "writeln", "cout", "puts", "putchar"}
          /\ out' = out \o (CASE S.a = "print" -> Printed(S.t)
                              [] S.a \in {"write", "cout", "putchar"} -> S.t
                              [] S.a \in {"writeln", "puts"} -> S.t \o "\n")
          /\ mode' = IF S.a = "cout" THEN "out" ELSE mode
          /\ Go /\ UNCHANGED <<inp, env, err>>
Errors == /\ Running /\ S.a = "cerr" /\ err' = err \o S.t /\ mode' = "err"
          /\ Go /\ UNCHANGED <<inp, env, out>>
Endl == /\ Running /\ S.a = "endl"
        /\ IF mode = "out" THEN out' = out \o "\n" /\ UNCHANGED err ELSE err' = err \o "\n" /\ UNCHANGED out
        /\ Go /\ UNCHANGED <<inp, env, mode>>
Arguments == /\ Running /\ S.a = "args"
             /\ out' = out \o Printed(ToString(Len(args)) \o "[" \o Lines(args) \o "]")
             /\ Go /\ UNCHANGED <<inp, env, mode, err>>
\* empty lines are skipped; there is nothing left at the end of the input
Left == {x \in inp..Len(K.input) : K.input[x] # ""}
Input == /\ Running /\ S.a = "cin"
         /\ IF Left = {} THEN out' = out \o Printed("<>") /\ inp' = Len(K.input) + 1
            ELSE LET x == CHOOSE x \in Left : \A y \in Left : x <= y IN out' = out \o Printed("<" \o K.input[x] \o ">") /\ inp' = x + 1
         /\ Go /\ UNCHANGED <<env, mode, err>>
Without(n) == {p \in env : p[1] # n}
Known(n) == \E p \in env : p[1] = n
Look(n) == IF Known(n) THEN (CHOOSE p \in env : p[1] = n)[2] ELSE ""
Environment == /\ Running /\ S.a \in {"getenv", "setenv", "putenv"}
               /\ CASE S.a = "getenv" -> out' = out \o Printed("{" \o Look(S.t) \o "}") /\ UNCHANGED env
                    [] S.a = "setenv" -> env' = (IF S.n = 0 /\ Known(S.t) THEN env ELSE Without(S.t) \union {<<S.t, S.v>>}) /\ UNCHANGED out
                    [] S.a = "putenv" -> env' = Without(S.t) \union {<<S.t, S.v>>} /\ UNCHANGED out
               /\ Go /\ UNCHANGED <<inp, mode, err>>
\* wherever it stands, exit ends the program; return does so in Main
Leave == /\ Running /\ S.a \in {"exit", "return", "throw", "fatal"}
         /\ End(IF S.a \in {"throw", "fatal"} THEN 255 ELSE S.n % 256)
         /\ UNCHANGED <<k, i, opts, quiet, verbose, script, args, run, out, err>>
Finish == /\ ph = "run" /\ pc > Len(K.prog) /\ End(0)
          /\ UNCHANGED <<k, i, opts, quiet, verbose, script, args, run, out, err>>

Report == /\ ph = "end" /\ PrintT(<<"PROC", k, out, err, status, script>>)
          /\ ph' = "reported"
          /\ UNCHANGED <<k, i, opts, quiet, verbose, script, args, run, out, err, status>>

Next == Flag \/ Quiet \/ Folder \/ Script \/ Given \/ Lacking \/ Start \/ Output \/ Errors \/ Endl \/ Arguments \/ Input
        \/ Environment \/ Leave \/ Finish \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* nothing is printed before a script runs
Silent == ph \in {"options", "start"} => out = "" /\ err = ""
\* a script gets itself and every word behind it, in order
Complete == ph \notin {"options"} /\ script # "" /\ status # 255 => args[1] = script /\ \A x \in 1..Len(args) - 1 :
              args[Len(args) + 1 - x] = K.argv[Len(K.argv) + 1 - x]
\* no status before the end, one at the end
Status == (status = -1) <=> (ph \in {"options", "start", "run"})
=============================================================================
