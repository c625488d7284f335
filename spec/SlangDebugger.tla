---------------------------- MODULE SlangDebugger ----------------------------
(***************************************************************************)
(* A program and the debugger that runs it.                                *)
(* A case is [main, fns, cmds]: methods with statements that have a line   *)
(* each, and the commands a user types.                                    *)
(*   fns    [name -> [params, body]]; a body is a sequence of statements   *)
(*          eval  dest = calls[1] + .. + calls[n] + add, where dest is a   *)
(*                declaration, an assignment, print, return, throw, none   *)
(*          if, while (with a condition that calls nothing), try           *)
(* State of the program:                                                   *)
(*   k      what is still to do, next thing first                          *)
(*   frames running methods, outermost first: [fn, env, val]; env is a     *)
(*          sequence of scopes                                             *)
(*   fly    what is unwinding: "no", "ret" or "thr" (with the value exc)   *)
(* State of the debugger:                                                  *)
(*   mode   "plain" is a run without debugger (its output is what counts), *)
(*          "idle", "run", "stop", and "ended"                             *)
(*   act    what it waits for: "into", "out", "over" (with the depth) or   *)
(*          "cont", or nothing at all, "ignore"                            *)
(*   bps    breakpoints: [line -> condition]                               *)
(*   log    what the user gets to see                                      *)
(* Every method that is entered or left, every statement and every throw   *)
(* is an event, kept in ev; stops are positions in ev.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* Pending: a variable while its initial value is being computed; what it shows is not specified
CONSTANTS Unknown, Pending

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, k, frames, fly, exc, mode, act, depth, bps, watches, view, cmds, log, ev, stops, plain, out, changed
program == <<k, frames, fly, exc>>
debugger == <<mode, act, depth, bps, watches, view, cmds, log>>
ghost == <<ev, stops, plain, out, changed>>
vars == <<c, program, debugger, ghost>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min(a, b) == IF a < b THEN a ELSE b
Empty == [x \in {} |-> 0]
Fn(f) == Cases[c].fns[f]

----------------------------------------------------------------------------
(* variables and expressions *)
ScopesOf(env, x) == {i \in DOMAIN env : x \in DOMAIN env[i]}
Innermost(S) == CHOOSE i \in S : \A j \in S : j <= i
Lookup(env, x) == LET S == ScopesOf(env, x) IN IF S = {} THEN Unknown ELSE env[Innermost(S)][x]
Assign(env, x, v) == LET i == Innermost(ScopesOf(env, x)) IN [env EXCEPT ![i] = [@ EXCEPT ![x] = v]]
Bind(env, x, v) == [env EXCEPT ![Len(env)] = (x :> v) @@ @]

RECURSIVE Eval(_, _)
Eval(e, env) == CASE e.op = "num" -> e.n
                  [] e.op = "var" -> Lookup(env, e.x)
                  [] e.op = "add" -> Eval(e.a, env) + Eval(e.b, env)
                  [] e.op = "sub" -> Eval(e.a, env) - Eval(e.b, env)
Compare(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                       [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
Holds(t, env) == Compare(t.op, Eval(t.a, env), Eval(t.b, env))

Env == Last(frames).env
Event(kind, line) == [i |-> "ev", kind |-> kind, line |-> line]
Stmts(s) == [i |-> "stmts", s |-> s]
Call(f, args) == [fn |-> f, val |-> 0, env |-> << [x \in {Fn(f).params[j] : j \in DOMAIN args} |-> args[CHOOSE j \in DOMAIN args : Fn(f).params[j] = x]] >>]
Enter(f, rest) == <<Event("enter", 0), Stmts(Fn(f).body), Event("exit", 0)>> \o rest

Start == /\ k' = Enter("Main", <<[i |-> "frame", of |-> <<>>]>>)
         /\ frames' = <<Call("Main", <<>>)>> /\ fly' = "no" /\ exc' = 0 /\ out' = <<>>

Init == /\ c \in 1..Len(Cases)
        /\ k = Enter("Main", <<[i |-> "frame", of |-> <<>>]>>) /\ frames = <<Call("Main", <<>>)>>
        /\ fly = "no" /\ exc = 0
        /\ mode = "plain" /\ act = "cont" /\ depth = 0 /\ bps = Empty /\ watches = {} /\ view = 0 /\ cmds = Cases[c].cmds /\ log = <<>>
        /\ ev = <<>> /\ stops = <<>> /\ plain = <<>> /\ out = <<>> /\ changed = FALSE

----------------------------------------------------------------------------
(* the debugger at events *)
Hit(line) == line \in DOMAIN bps /\ (bps[line] = <<>> \/ Compare(bps[line][2], Lookup(Env, bps[line][1]), bps[line][3]))
Stops(kind, line) ==
    /\ mode = "run"
    /\ CASE kind = "stmt" -> act # "ignore" /\ ((act = "over" /\ Len(frames) <= depth) \/ Hit(line))
         [] kind = "enter" -> act = "into"
         [] kind = "exit" -> act = "out"
         [] kind = "throw" -> TRUE

Text(x, env) == LET v == Lookup(env, x) IN IF v = Unknown THEN "?" ELSE IF v = Pending THEN "*" ELSE ToString(v)
\* variables have one letter and a number each; watches are shown in the order of their names
Names == <<"a", "b", "c", "d", "e", "u", "v", "w", "x", "y", "z">>
Watched(env) == LET seen == SelectSeq(Names, LAMBDA x : x \in watches) IN [i \in DOMAIN seen |-> <<"watch", seen[i], Text(seen[i], env)>>]
Seen(kind, line) == IF kind = "stmt" THEN <<"stmt", line>> ELSE <<kind, Len(frames) - 1, Last(frames).fn>>

AtEvent(e) ==
    /\ k' = Tail(k)
    /\ ev' = IF mode = "run" THEN Append(ev, [kind |-> e.kind, line |-> e.line, depth |-> Len(frames), hit |-> e.kind = "stmt" /\ Hit(e.line)]) ELSE ev
    /\ IF Stops(e.kind, e.line)
       THEN /\ mode' = "stop" /\ view' = Len(frames)
            /\ log' = log \o <<Seen(e.kind, e.line)>> \o Watched(Env)
            /\ stops' = Append(stops, Len(ev'))
       ELSE UNCHANGED <<mode, view, log, stops>>
    /\ UNCHANGED <<c, frames, fly, exc, act, depth, bps, watches, cmds, plain, out, changed>>

----------------------------------------------------------------------------
(* the program: one thing to do after the other *)
Quiet == UNCHANGED <<c, mode, act, depth, bps, watches, view, cmds, log, ev, stops, plain, out, changed>>
Todo(new) == k' = new \o Tail(k)
SetEnv(env) == frames' = [frames EXCEPT ![Len(frames)] = [@ EXCEPT !.env = env]]

Exec(s) ==
    /\ UNCHANGED <<fly, exc>> /\ Quiet
    /\ CASE s.k = "eval" -> /\ Todo(<<[i |-> "calls", s |-> s, todo |-> s.calls, acc |-> 0]>>)
                              /\ IF s.dest = "decl" THEN SetEnv(Bind(Env, s.x, Pending)) ELSE UNCHANGED frames
         [] s.k = "if" -> /\ Todo(<<Stmts(IF Holds(s.cond, Env) THEN s.then ELSE s.else), [i |-> "scope"]>>) /\ SetEnv(Append(Env, Empty))
         [] s.k = "while" -> /\ Todo(<<[i |-> "loop", s |-> s]>>) /\ UNCHANGED frames
         [] s.k = "try" -> /\ Todo(<<Stmts(s.body), [i |-> "scope"], [i |-> "try", s |-> s, scopes |-> Len(Env)]>>) /\ SetEnv(Append(Env, Empty))

Loop(s) ==
    /\ UNCHANGED <<fly, exc>> /\ Quiet
    /\ IF Holds(s.cond, Env) THEN Todo(<<Stmts(s.body), [i |-> "scope"], [i |-> "loop", s |-> s]>>) /\ SetEnv(Append(Env, Empty))
       ELSE Todo(<<>>) /\ UNCHANGED frames

Calls(t) ==
    IF t.todo # <<>>
    THEN LET d == Head(t.todo) IN
         /\ frames' = Append(frames, Call(d.f, [j \in DOMAIN d.args |-> Eval(d.args[j], Env)]))
         /\ k' = Enter(d.f, <<[i |-> "frame", of |-> <<t>>]>> \o Tail(k))
         /\ UNCHANGED <<fly, exc>> /\ Quiet
    ELSE LET s == t.s
             v == t.acc + Eval(s.add, Env)
         IN  CASE s.dest = "none" -> Todo(<<>>) /\ UNCHANGED <<frames, fly, exc>> /\ Quiet
               [] s.dest = "decl" -> Todo(<<>>) /\ SetEnv(Bind(Env, s.x, v)) /\ UNCHANGED <<fly, exc>> /\ Quiet
               [] s.dest = "set" -> Todo(<<>>) /\ SetEnv(Assign(Env, s.x, v)) /\ UNCHANGED <<fly, exc>> /\ Quiet
               [] s.dest = "return" -> /\ Todo(<<>>) /\ fly' = "ret" /\ frames' = [frames EXCEPT ![Len(frames)] = [@ EXCEPT !.val = v]]
                                       /\ UNCHANGED exc /\ Quiet
               [] s.dest = "throw" -> Todo(<<Event("throw", s.line), [i |-> "raise", v |-> v]>>) /\ UNCHANGED <<frames, fly, exc>> /\ Quiet
               [] s.dest = "print" -> /\ Todo(<<>>) /\ out' = Append(out, v) /\ log' = IF mode = "run" THEN Append(log, <<"out", v>>) ELSE log
                                      /\ UNCHANGED <<c, frames, fly, exc, mode, act, depth, bps, watches, view, cmds, ev, stops, plain, changed>>

\* the method is gone: its caller goes on with the next call, or is left as well
Return(t) ==
    /\ frames' = Front(frames)
    /\ depth' = Min(depth, Len(frames) - 1)
    /\ UNCHANGED <<c, exc, act, bps, watches, cmds, ev, stops, changed, out, view>>
    /\ IF t.of # <<>>
       THEN /\ k' = IF fly = "thr" THEN Tail(k) ELSE <<[t.of[1] EXCEPT !.todo = Tail(@), !.acc = @ + Last(frames).val]>> \o Tail(k)
            /\ fly' = IF fly = "thr" THEN fly ELSE "no"
            /\ UNCHANGED <<mode, log, plain>>
       ELSE /\ k' = <<>> /\ fly' = "no" /\ mode' = "idle"
            /\ LET end == IF fly = "thr" THEN <<"uncaught">> ELSE <<"end", Last(frames).val>>
               IN  /\ plain' = IF mode = "plain" THEN <<out, end>> ELSE plain
                   /\ log' = IF mode = "run" THEN Append(log, end) ELSE log

Catch(t) ==
    /\ UNCHANGED exc /\ Quiet
    /\ IF fly = "thr"
       THEN /\ fly' = "no"
            /\ SetEnv(Append(SubSeq(Env, 1, t.scopes), t.s.x :> exc))
            /\ Todo(<<Stmts(t.s.handler), [i |-> "scope"]>>)
       ELSE Todo(<<>>) /\ UNCHANGED <<fly, frames>>

Program ==
    LET t == Head(k) IN
    IF t.i = "frame" THEN Return(t)
    ELSE IF t.i = "ev" /\ (fly = "no" \/ t.kind = "exit") THEN AtEvent(t)
    ELSE IF t.i = "try" /\ fly # "ret" THEN Catch(t)
    ELSE IF fly # "no" THEN Todo(<<>>) /\ UNCHANGED <<frames, fly, exc>> /\ Quiet
    ELSE CASE t.i = "stmts" -> /\ IF t.s = <<>> THEN Todo(<<>>)
                                  ELSE Todo(<<Event("stmt", Head(t.s).line), [i |-> "exec", s |-> Head(t.s)], Stmts(Tail(t.s))>>)
                               /\ UNCHANGED <<frames, fly, exc>> /\ Quiet
           [] t.i = "exec" -> Exec(t.s)
           [] t.i = "loop" -> Loop(t.s)
           [] t.i = "scope" -> Todo(<<>>) /\ SetEnv(Front(Env)) /\ UNCHANGED <<fly, exc>> /\ Quiet
           [] t.i = "calls" -> Calls(t)
           [] t.i = "raise" -> Todo(<<>>) /\ fly' = "thr" /\ exc' = t.v /\ UNCHANGED frames /\ Quiet

----------------------------------------------------------------------------
(* the commands of the user *)
View == frames[view].env
Show(lines) == log' = log \o lines
Value(x) == <<"val", x, IF mode = "stop" THEN Text(x, View) ELSE "?">>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Go(a) == /\ act' = a /\ mode' = IF mode = "stop" THEN "run" ELSE mode
         /\ depth' = IF a = "over" THEN Len(frames) ELSE depth
         /\ stops' = IF mode = "stop" THEN Append(Front(stops), [at |-> Last(stops), via |-> a]) ELSE stops
         /\ UNCHANGED <<program, bps, watches, view, log, ev, plain, out, changed>>
Same == UNCHANGED <<program, mode, act, depth, ev, stops, plain, out>>

Command ==
  /\ UNCHANGED c
  /\ IF cmds = <<>> THEN mode' = "ended" /\ UNCHANGED <<program, act, depth, bps, watches, view, cmds, log, ghost>>
     ELSE LET d == Head(cmds) IN
       /\ cmds' = Tail(cmds)
       /\ CASE d[1] = "r" /\ mode = "idle" ->
                 /\ Start /\ mode' = "run" /\ act' = "into" /\ depth' = 0 /\ ev' = <<>> /\ stops' = <<[at |-> 0, via |-> "into"]>>
                 /\ changed' = FALSE /\ Show(<< <<"start">> >>) /\ UNCHANGED <<bps, watches, view, plain>>
            [] d[1] = "r" /\ mode = "stop" -> Go("cont")
            [] d[1] = "c" -> Go("cont")
            [] d[1] = "n" -> Go("over")
            [] d[1] = "i" -> Go("into")
            [] d[1] = "o" -> Go("out")
            [] d[1] = "ignore" -> Go("ignore")
            [] d[1] = "q" -> mode' = "ended" /\ UNCHANGED <<program, act, depth, bps, watches, view, log, ghost>>
            [] d[1] = "p" -> Show(<<Value(d[2])>>) /\ Same /\ UNCHANGED <<bps, watches, view, changed>>
            [] d[1] = "m" ->
                 IF mode = "stop" /\ Lookup(View, d[2]) = Pending
                 THEN Show(<< <<"open">> >>) /\ mode' = "ended" /\ UNCHANGED <<program, act, depth, bps, watches, view, ghost>>
                 ELSE IF mode = "stop" /\ ScopesOf(View, d[2]) # {}
                 THEN /\ frames' = [frames EXCEPT ![view] = [@ EXCEPT !.env = Assign(@, d[2], d[3])]]
                      /\ changed' = TRUE
                      /\ UNCHANGED <<k, fly, exc, mode, act, depth, bps, watches, view, log, ev, stops, plain, out>>
                 ELSE Show(<< <<"val", d[2], "?">> >>) /\ Same /\ UNCHANGED <<bps, watches, view, changed>>
            [] d[1] = "b" -> bps' = (d[2] :> d[3]) @@ bps /\ Same /\ UNCHANGED <<watches, view, log, changed>>
            [] d[1] = "d" -> /\ bps' = LET l == Sorted(DOMAIN bps) IN
                                       IF d[2] \in DOMAIN l THEN [x \in DOMAIN bps \ {l[d[2]]} |-> bps[x]] ELSE bps
                             /\ Same /\ UNCHANGED <<watches, view, log, changed>>
            [] d[1] = "breakpoints" -> /\ Show(LET l == Sorted(DOMAIN bps) IN << <<"bps">> >> \o [j \in DOMAIN l |-> <<"bp", l[j]>>])
                                       /\ Same /\ UNCHANGED <<bps, watches, view, changed>>
            [] d[1] = "w" -> watches' = watches \cup {d[2]} /\ Same /\ UNCHANGED <<bps, view, log, changed>>
            [] d[1] = "unwatch" -> watches' = watches \ {d[2]} /\ Same /\ UNCHANGED <<bps, view, log, changed>>
            [] d[1] = "bt" -> /\ Show(IF mode = "stop" THEN [j \in DOMAIN frames |-> <<"frame", j - 1, frames[j].fn>>] ELSE <<>>)
                              /\ Same /\ UNCHANGED <<bps, watches, view, changed>>
            [] d[1] = "frame" -> IF mode = "stop" /\ d[2] < Len(frames)
                             THEN /\ view' = d[2] + 1 /\ Show(Watched(frames[d[2] + 1].env)) /\ Same /\ UNCHANGED <<bps, watches, changed>>
                             ELSE /\ Show(<< <<"noframe">> >>) /\ Same /\ UNCHANGED <<bps, watches, view, changed>>

Next == IF mode \in {"plain", "run"} THEN Program
        ELSE IF mode \in {"idle", "stop"} THEN Command
        ELSE /\ mode = "ended" /\ mode' = "gone" /\ PrintT(<<"LOG", c, plain, log>>)
             /\ UNCHANGED <<c, program, act, depth, bps, watches, view, cmds, log, ghost>>

----------------------------------------------------------------------------
(* What a user relies on, said without the machine. *)

\* nothing but changing a variable has an influence on the program
Transparent == mode = "idle" /\ ev # <<>> /\ ~changed => out = plain[1] /\ \E j \in DOMAIN log : log[j] = plain[2]

\* event m is one that the user asked to stop at with the command via given at event a
Wanted(via, a, m) ==
    \/ ev[m].kind = "throw"
    \/ ev[m].kind = "stmt" /\ ev[m].hit /\ via # "ignore"
    \/ via = "into" /\ ev[m].kind = "enter"
    \/ via = "out" /\ ev[m].kind = "exit"
    \* a statement of a method that was already running at a, and has not been left since
    \/ via = "over" /\ ev[m].kind = "stmt" /\ ev[m].depth <= ev[a].depth
       /\ \A j \in a..m : ev[j].kind = "exit" => ev[j].depth > ev[m].depth

\* between two stops lies nothing that was asked for, and every stop is something that was
StopsRight ==
    mode \in {"stop", "idle"} /\ ev # <<>> =>
      \A i \in DOMAIN stops :
         (i < Len(stops) \/ mode = "idle") =>
            LET a == stops[i].at
                via == stops[i].via
                b == IF i = Len(stops) THEN Len(ev) + 1 ELSE IF i + 1 = Len(stops) /\ mode = "stop" THEN stops[i + 1] ELSE stops[i + 1].at
            IN  /\ \A m \in a + 1 .. b - 1 : ~Wanted(via, a, m)
                /\ b <= Len(ev) => Wanted(via, a, b)

\* every method that is entered is left, innermost first
RECURSIVE Balanced(_, _)
Balanced(j, d) == IF j > Len(ev) THEN d = 0
                  ELSE CASE ev[j].kind = "enter" -> ev[j].depth = d + 1 /\ Balanced(j + 1, d + 1)
                         [] ev[j].kind = "exit" -> ev[j].depth = d /\ Balanced(j + 1, d - 1)
                         [] OTHER -> ev[j].depth = d /\ Balanced(j + 1, d)
Nested == mode = "idle" /\ ev # <<>> => Balanced(1, 0)
=============================================================================
