---------------------------- MODULE SlangMachine ----------------------------
(***************************************************************************)
(* Operational semantics of Slang programs as a state machine.             *)
(*                                                                         *)
(* A state is a configuration of an abstract interpreter for one program:  *)
(*   pid  index of the program in Progs                                    *)
(*   c    control: what is being evaluated / executed / returned           *)
(*   ks   continuation stack (what remains to be done, temporaries held)   *)
(*   env  call frames, each with the block scopes of the running method    *)
(*   hp   heap: objects with class, reference count, members, life state   *)
(*   gl   global, namespace level and static variables                     *)
(*   ex   the exception that is being raised or handled                    *)
(*   rl   references that have to be given up before anything else happens *)
(*   tp   how many lines of the recorded run have been matched             *)
(*   st   "run", or how the program ended                                  *)
(*                                                                         *)
(* The order in which the variables of one scope (or the members of one    *)
(* object) are given up is deliberately left open: RelStep picks any.      *)
(* Everything else is deterministic.                                       *)
(*                                                                         *)
(* Each program comes with the recorded behaviour of the real interpreter  *)
(* (printed lines, the way it ended, exit status).  A print step is only   *)
(* enabled if its text is the next recorded line, so a program is accepted *)
(* iff the recorded run is a behaviour of this specification.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)

CONSTANT MaxLines       \* longer runs are only judged up to this line

VARIABLE s

-----------------------------------------------------------------------------
(* Values *)

Val(t, i, x) == [t |-> t, i |-> i, s |-> x]
Void   == Val("void", 0, "")
Num(i) == Val("int", i, "")
Bool(b) == Val("bool", IF b THEN 1 ELSE 0, "")
Str(x) == Val("string", 0, x)
Obj(i) == Val("obj", i, "")
Ovf    == Val("ovf", 0, "")          \* outside of the numbers that are modelled
Fatal  == Val("fatal", 0, "")        \* an operation that ends the program

IsRef(v) == v.t = "obj" /\ v.i # 0

Default(ty) == CASE ty = "int" -> Num(0)
                 [] ty = "bool" -> Bool(FALSE)
                 [] ty = "string" -> Str("")
                 [] OTHER -> Obj(0)

Text(v) == CASE v.t \in {"int", "bool", "enum"} -> ToString(v.i)
             [] v.t = "string" -> v.s
             [] OTHER -> "?"

Truth(v) == CASE v.t \in {"int", "bool", "enum", "obj"} -> v.i # 0
              [] v.t = "string" -> v.s \notin {"", "false"}
              [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Operators on values of built-in types *)

Abs(i) == IF i < 0 THEN -i ELSE i
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rem(a, b) == a - b * Quot(a, b)

Lim == 30000
Small(v) == Abs(v.i) <= Lim

IntOp(op, a, b) ==
  CASE op = "+" -> Num(a.i + b.i)
    [] op = "-" -> Num(a.i - b.i)
    [] op = "*" -> Num(a.i * b.i)
    [] op = "/" -> IF b.i = 0 THEN Fatal ELSE Num(Quot(a.i, b.i))
    [] op = "%" -> IF b.i = 0 THEN Fatal ELSE Num(Rem(a.i, b.i))
    [] op = "==" -> Bool(a.i = b.i)
    [] op = "!=" -> Bool(a.i # b.i)
    [] op = "<" -> Bool(a.i < b.i)
    [] op = "<=" -> Bool(a.i <= b.i)
    [] op = ">" -> Bool(a.i > b.i)
    [] op = ">=" -> Bool(a.i >= b.i)

BinOp(op, a, b) ==
  IF a.t \in {"int", "enum"} /\ b.t \in {"int", "enum"}
  THEN IF Small(a) /\ Small(b) THEN IntOp(op, a, b) ELSE Ovf
  ELSE IF a.t = "string"
  THEN CASE op = "+" -> Str(a.s \o Text(b))
         [] op = "==" -> Bool(a.s = b.s)
         [] op = "!=" -> Bool(a.s # b.s)
  ELSE CASE op = "==" -> Bool(a.i = b.i)
         [] op = "!=" -> Bool(a.i # b.i)

UnOp(op, a) == CASE op = "-" -> Num(-a.i)
                 [] op = "+" -> Num(a.i)
                 [] op = "!" -> Bool(~Truth(a))

Cast(ty, v) == CASE ty = "string" -> Str(Text(v))
                 [] ty = "bool" -> Bool(Truth(v))
                 [] ty = "int" /\ v.t \in {"int", "bool", "enum"} -> Num(v.i)
                 [] OTHER -> v

-----------------------------------------------------------------------------
(* Control and continuations *)

Ctl(m, n, v, f) == [m |-> m, n |-> n, v |-> v, f |-> f]
Ev(n) == Ctl("ev", n, Void, "")      \* evaluate expression n
Va(v) == Ctl("va", 0, v, "")         \* the expression has value v
Ex(n) == Ctl("ex", n, Void, "")      \* execute statement n
Fl(f) == Ctl("fl", 0, Void, f)       \* left with control flow f:
                                     \*   n normal, b break, c continue,
                                     \*   r return, t throw, x exit
FlR(v) == Ctl("fl", 0, v, "r")

NoLoc == [w |-> "", a |-> 0, b |-> 0]
K(k, n, i, vs) == [k |-> k, n |-> n, i |-> i, vs |-> vs, f |-> "", l |-> NoLoc, c |-> Fl("n")]

N(q, n) == Progs[q.pid].nodes[n]
Cls(q, c) == Progs[q.pid].classes[c]

\* the number of an enumeration value: the declared one, or one more than that of the value before it
Enum(q, ty) == LET E == Progs[q.pid].enums IN E[CHOOSE i \in DOMAIN E : E[i].n = ty].es
EnumVal(q, ty, n) ==
  LET es == Enum(q, ty)
      num[i \in 0..Len(es)] == IF i = 0 THEN -1 ELSE IF es[i].has THEN es[i].v ELSE num[i - 1] + 1
  IN Val("enum", num[CHOOSE i \in DOMAIN es : es[i].n = n], ty)

TopK(q) == q.ks[Len(q.ks)]
PopK(q) == [q EXCEPT !.ks = SubSeq(@, 1, Len(@) - 1)]
PushK(q, k, c) == [q EXCEPT !.ks = Append(@, k), !.c = c]
SetK(q, k, c) == [q EXCEPT !.ks[Len(q.ks)] = k, !.c = c]
Go(q, c) == [q EXCEPT !.c = c]
Rel(q, vs) == [q EXCEPT !.rl = @ \o vs]
IncH(h, v) == IF IsRef(v) THEN [h EXCEPT ![v.i].rc = @ + 1] ELSE h
Inc(q, v) == [q EXCEPT !.hp = IncH(@, v)]

RECURSIVE IncAll(_, _)
IncAll(h, vs) == IF vs = <<>> THEN h ELSE IncAll(IncH(h, Head(vs)), Tail(vs))

Frame(q) == q.env[Len(q.env)]
End(q, st) == [q EXCEPT !.st = st]

-----------------------------------------------------------------------------
(* Names: locals from the innermost scope outwards, then the members of    *)
(* the object the method runs on, then global variables                    *)

LastIdx(S) == CHOOSE i \in S : \A j \in S : j <= i
FirstIdx(S) == CHOOSE i \in S : \A j \in S : i <= j

ScopesWith(q, nm) == {i \in DOMAIN Frame(q).sc : \E j \in DOMAIN Frame(q).sc[i] : Frame(q).sc[i][j].n = nm}

\* the member called nm, seen from class cl (its own members first, then those of its bases)
FieldAt(q, o, cl, nm) ==
  LET anc == Cls(q, cl).anc
      f == q.hp[o].f
      D == {i \in DOMAIN anc : \E j \in DOMAIN f : f[j].cl = anc[i] /\ f[j].n = nm}
  IN IF D = {} THEN 0
     ELSE LET c == anc[FirstIdx(D)] IN CHOOSE j \in DOMAIN f : f[j].cl = c /\ f[j].n = nm

FirstLoc(q, nm) ==
  LET S == ScopesWith(q, nm)
      fr == Frame(q)
  IN IF S # {}
     THEN LET i == LastIdx(S) IN [w |-> "loc", a |-> i, b |-> CHOOSE j \in DOMAIN fr.sc[i] : fr.sc[i][j].n = nm]
     ELSE LET j == IF fr.th = 0 THEN 0 ELSE FieldAt(q, fr.th, fr.cls, nm)
          IN IF j # 0 THEN [w |-> "fld", a |-> fr.th, b |-> j]
             ELSE [w |-> "glo", a |-> 0, b |-> CHOOSE g \in DOMAIN q.gl : q.gl[g].n = nm]

Read(q, l) == CASE l.w = "loc" -> Frame(q).sc[l.a][l.b].v
                [] l.w = "fld" -> q.hp[l.a].f[l.b].v
                [] l.w = "glo" -> q.gl[l.b].v

Write(q, l, v) == CASE l.w = "loc" -> [q EXCEPT !.env[Len(q.env)].sc[l.a][l.b].v = v]
                    [] l.w = "fld" -> [q EXCEPT !.hp[l.a].f[l.b].v = v]
                    [] l.w = "glo" -> [q EXCEPT !.gl[l.b].v = v]

RECURSIVE Walk(_, _, _)
Walk(q, l, p) ==
  IF p = <<>> THEN l
  ELSE LET v == Read(q, l)
       IN IF ~IsRef(v) THEN NoLoc
          ELSE Walk(q, [w |-> "fld", a |-> v.i, b |-> FieldAt(q, v.i, q.hp[v.i].c, Head(p))], Tail(p))

Resolve(q, p) == IF p[1] = "this"
                 THEN Walk(q, [w |-> "fld", a |-> Frame(q).th,
                               b |-> FieldAt(q, Frame(q).th, Frame(q).cls, p[2])], SubSeq(p, 3, Len(p)))
                 ELSE Walk(q, FirstLoc(q, p[1]), Tail(p))

\* the part of the path that could not be followed
RECURSIVE Lost(_, _, _)
Lost(q, l, p) == LET v == Read(q, l)
                 IN IF ~IsRef(v) THEN p
                    ELSE Lost(q, [w |-> "fld", a |-> v.i, b |-> FieldAt(q, v.i, q.hp[v.i].c, Head(p))], Tail(p))

RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Join(Tail(p))

-----------------------------------------------------------------------------
(* Methods *)

SigOk(m, nm, at) ==
  /\ m.n = nm
  /\ Len(at) <= Len(m.ps)
  /\ \A i \in DOMAIN at : m.ps[i].ty = at[i]
  /\ \A i \in (Len(at) + 1)..Len(m.ps) : m.ps[i].hd

\* the method that a call of nm with arguments of types at selects when the
\* search starts in class cl: the nearest class (towards the root) that has one
RECURSIVE Find(_, _, _, _)
Find(q, anc, nm, at) ==
  IF anc = <<>> THEN [ok |-> FALSE, cl |-> "", i |-> 0]
  ELSE LET ms == Cls(q, Head(anc)).ms
           S == {i \in DOMAIN ms : SigOk(ms[i], nm, at)}
       IN IF S # {} THEN [ok |-> TRUE, cl |-> Head(anc), i |-> FirstIdx(S)]
          ELSE Find(q, Tail(anc), nm, at)

FindIn(q, cl, nm, at) == Find(q, Cls(q, cl).anc, nm, at)
MethodOf(q, r) == Cls(q, r.cl).ms[r.i]

Bind(m, args) == [i \in DOMAIN m.ps |->
                   [n |-> m.ps[i].n, v |-> IF i <= Len(args) THEN args[i] ELSE m.ps[i].d]]

\* run method r on object th; the caller holds `held` until the call has returned
Enter(q, r, th, args, held) ==
  LET m == MethodOf(q, r)
      ps == Bind(m, args)
      k == K("call", 0, 0, held)
  IN [q EXCEPT !.hp = IncAll(@, args),
               !.env = Append(@, [th |-> th, cls |-> r.cl, sc |-> <<ps>>]),
               !.ks = Append(@, k),
               !.c = Ex(m.body)]

Raise(q, v) == Rel([q EXCEPT !.ex = v, !.c = Fl("t")], <<q.ex>>)

Alloc(q, cl) == LET fs == Cls(q, cl).allf
                IN [q EXCEPT !.hp = Append(@, [c |-> cl, rc |-> 1, ls |-> "live",
                                               f |-> [i \in DOMAIN fs |-> [cl |-> fs[i].cl, n |-> fs[i].n, v |-> fs[i].v]]])]

\* all arguments of call / instantiation n are there (vs: receiver if it is an expression, then arguments)
Invoke(q, n, vs) ==
  LET e == N(q, n)
      nm == e.n
      at == e.at
      run(r, th, args, q2) == IF r.ok THEN Enter(q2, r, th, args, vs) ELSE End(q2, "nomethod")
  IN IF e.k = "new"
     THEN LET q1 == Alloc(q, e.n)
              id == Len(q1.hp)
              q2 == PushK(q1, K("new", n, 0, <<Obj(id)>>), Fl("n"))
              r == FindIn(q, e.n, "Constructor", at)
          IN IF r.ok THEN Enter(q2, r, id, vs, vs)
             ELSE IF vs = <<>> THEN Go(q2, Va(Void)) ELSE End(q2, "nomethod")
     ELSE CASE e.mode = "fun"  -> run(FindIn(q, "$global", nm, at), 0, vs, q)
            [] e.mode = "stat" -> run(FindIn(q, e.cl, nm, at), 0, vs, q)
            [] e.mode = "self" -> run(FindIn(q, Frame(q).cls, nm, at), Frame(q).th, vs, q)
            [] e.mode = "base" -> run(Find(q, Tail(Cls(q, Frame(q).cls).anc), nm, at), Frame(q).th, vs, q)
            [] e.mode = "expr" -> LET o == Head(vs)
                                  IN IF ~IsRef(o) THEN Rel(Raise(q, Str("NullPointerException: " \o nm)), vs)
                                     ELSE run(FindIn(q, q.hp[o.i].c, nm, at), o.i, Tail(vs), q)
            [] e.mode = "path" -> LET l == Resolve(q, e.p)
                                      o == IF l = NoLoc THEN Obj(0) ELSE Read(q, l)
                                  IN IF ~IsRef(o) THEN Rel(Raise(q, Str("NullPointerException: " \o Join(e.p) \o "." \o nm)), vs)
                                     ELSE LET r == FindIn(q, q.hp[o.i].c, nm, at)      \* the caller holds the object, too
                                          IN IF r.ok THEN Enter(Inc(q, o), r, o.i, vs, Append(vs, o)) ELSE End(q, "nomethod")

StartArgs(q, n, vs) ==
  LET a == N(q, n).a IN IF a = <<>> THEN Invoke(q, n, vs) ELSE PushK(q, K("arg", n, 1, vs), Ev(a[1]))

-----------------------------------------------------------------------------
(* Expressions *)

EvStep(q) ==
  LET n == q.c.n
      e == N(q, n)
  IN CASE e.k = "lit" -> Go(q, Va(e.v))
       [] e.k = "enum" -> Go(q, Va(EnumVal(q, e.ty, e.n)))
       [] e.k = "this" -> Inc(Go(q, Va(Obj(Frame(q).th))), Obj(Frame(q).th))
       [] e.k = "get" -> LET l == Resolve(q, e.p)
                         IN IF l = NoLoc THEN Raise(q, Str("NullPointerException: " \o Join(Lost(q, FirstLoc(q, e.p[1]), Tail(e.p)))))
                            ELSE LET v == Read(q, l) IN Inc(Go(q, Va(v)), v)
       [] e.k \in {"un", "cast", "is", "typeid"} -> PushK(q, K(e.k, n, 0, <<>>), Ev(e.e))
       [] e.k = "bin" -> PushK(q, K("binl", n, 0, <<>>), Ev(e.l))
       [] e.k \in {"and", "or"} -> PushK(q, K(e.k, n, 0, <<>>), Ev(e.l))
       [] e.k = "tern" -> PushK(q, K("tern", n, 0, <<>>), Ev(e.c))
       \* x op= e stands for x = x op e: the old value is read before e is evaluated, the target is found afterwards
       [] e.k = "asg" -> PushK(q, K("asg", n, 0, IF e.op = "=" THEN <<>> ELSE <<Read(q, Resolve(q, e.p))>>), Ev(e.e))
       [] e.k = "inc" -> LET l == Resolve(q, e.p)
                             v == BinOp(e.op, Read(q, l), Num(1))
                         IN IF v.t = "ovf" THEN End(q, "inc") ELSE Go(Write(q, l, v), Va(v))
       [] e.k = "new" -> StartArgs(q, n, <<>>)
       [] e.k = "call" -> IF e.mode = "expr" THEN PushK(q, K("recv", n, 0, <<>>), Ev(e.r))
                          ELSE StartArgs(q, n, <<>>)

Result(q, v) == CASE v.t = "ovf" -> End(q, "inc")
                  [] v.t = "fatal" -> End(q, "fatal")
                  [] OTHER -> Go(q, Va(v))

InstanceOf(q, v, ty) == IF v.t = "obj" THEN v.i # 0 /\ ty \in {Cls(q, q.hp[v.i].c).isa[i] : i \in DOMAIN Cls(q, q.hp[v.i].c).isa}
                        ELSE IF v.t = "enum" THEN v.s = ty ELSE v.t = ty

TypeName(q, v) == IF v.t = "obj" THEN q.hp[v.i].c ELSE IF v.t = "enum" THEN v.s ELSE v.t

\* value v is delivered to the continuation on top of the stack
VaStep(q) ==
  LET k == TopK(q)
      v == q.c.v
      e == IF k.n = 0 THEN [k |-> ""] ELSE N(q, k.n)
      p == PopK(q)
  IN CASE k.k = "un" -> Rel(Result(p, UnOp(e.op, v)), <<v>>)
       [] k.k = "cast" -> IF v.t = "obj" /\ e.ty \in {"string", "int", "bool"}
                          THEN Enter(p, FindIn(q, q.hp[v.i].c, "=operator", <<e.ty>>), v.i, <<Default(e.ty)>>, <<v>>)
                          ELSE IF v.t = "obj"
                               \* an object is never taken for something it is not
                               THEN IF InstanceOf(q, v, e.ty) THEN Go(p, Va(v)) ELSE End(q, "fatal")
                               ELSE Result(p, Cast(e.ty, v))
       [] k.k = "is" -> Rel(Go(p, Va(Bool(InstanceOf(q, v, e.ty)))), <<v>>)
       [] k.k = "typeid" -> Rel(Go(p, Va(Str(TypeName(q, v)))), <<v>>)
       [] k.k = "binl" -> SetK(q, K("binr", k.n, 0, <<v>>), Ev(e.r))
       [] k.k = "binr" -> LET a == k.vs[1]
                          IN IF a.t = "obj" /\ e.op \notin {"===", "!=="}
                             THEN Enter(p, FindIn(q, q.hp[a.i].c, "operator" \o e.op, <<e.rt>>), a.i, <<v>>, <<a, v>>)
                             ELSE Rel(Result(p, BinOp(e.op, a, v)), <<a, v>>)
       [] k.k = "and" -> IF Truth(v) THEN SetK(q, K("bool", k.n, 0, <<>>), Ev(e.r)) ELSE Go(p, Va(Bool(FALSE)))
       [] k.k = "or"  -> IF Truth(v) THEN Go(p, Va(Bool(TRUE))) ELSE SetK(q, K("bool", k.n, 0, <<>>), Ev(e.r))
       [] k.k = "bool" -> Go(p, Va(Bool(Truth(v))))
       [] k.k = "tern" -> Rel(Go(p, Ev(IF Truth(v) THEN e.a ELSE e.b)), <<v>>)
       [] k.k = "asg" -> LET l == Resolve(q, e.p)
                             new == IF e.op = "=" THEN v ELSE BinOp(e.op, k.vs[1], v)
                         IN IF new.t \in {"ovf", "fatal"} THEN Result(q, new)
                            ELSE IF l = NoLoc THEN End(q, "fatal")
                            ELSE Rel(Inc(Write(Go(p, Va(new)), l, new), new), <<Read(q, l)>>)
       [] k.k = "recv" -> StartArgs(p, k.n, <<v>>)
       [] k.k = "arg" -> LET vs == Append(k.vs, v)
                         IN IF k.i = Len(e.a) THEN Invoke(p, k.n, vs)
                            ELSE SetK(q, K("arg", k.n, k.i + 1, vs), Ev(e.a[k.i + 1]))
       [] k.k = "new" -> Go(p, Va(k.vs[1]))
       [] k.k = "rel" -> Rel(p, k.vs)
       \* statements that wait for a value
       [] k.k = "if" -> Rel(Go(p, IF Truth(v) THEN Ex(e.a) ELSE IF e.b = 0 THEN Fl("n") ELSE Ex(e.b)), <<v>>)
       [] k.k = "whc" -> Rel(IF Truth(v) THEN SetK(q, K("whb", k.n, 0, <<>>), Ex(e.b)) ELSE Go(p, Fl("n")), <<v>>)
       [] k.k = "forc" -> Rel(IF Truth(v) THEN SetK(q, K("forb", k.n, 0, <<>>), Ex(e.b)) ELSE SetK(q, K("fore", k.n, 0, <<>>), Fl("n")), <<v>>)
       [] k.k = "expr" -> Rel(Go(p, Fl("n")), <<v>>)
       [] k.k = "ret" -> Go(p, FlR(v))
       [] k.k = "thr" -> Raise(p, v)
       [] k.k = "exit" -> Rel([p EXCEPT !.ex = Num(v.i), !.c = Fl("x")], <<q.ex>>)
       [] k.k = "assert" -> IF Truth(v) THEN Rel(Go(p, Fl("n")), <<v>>) ELSE End(q, "fatal")
       [] k.k = "decl" -> LET fr == Len(q.env)
                              sc == Len(q.env[fr].sc)
                          IN [p EXCEPT !.env[fr].sc[sc] = Append(@, [n |-> e.n, v |-> v]), !.c = Fl("n")]
       [] k.k = "swv" -> SetK(q, K("swc", k.n, 1, <<v>>), IF e.cs = <<>> THEN Fl("n") ELSE Ev(e.cs[1].v))
       [] k.k = "swc" -> IF BinOp("==", k.vs[1], v).i = 1
                         THEN SetK(q, K("swb", k.n, 0, k.vs), Ex(e.cs[k.i].b))
                         ELSE IF k.i < Len(e.cs) THEN SetK(q, K("swc", k.n, k.i + 1, k.vs), Ev(e.cs[k.i + 1].v))
                         ELSE IF e.d = 0 THEN Rel(Go(p, Fl("n")), k.vs)
                         ELSE SetK(q, K("swb", k.n, 0, k.vs), Ex(e.d))
       \* foreach: the collection hands out an iterator, which is asked for every item
       [] k.k = "fec" -> IF ~IsRef(v) THEN Raise(p, Str("NullPointerException"))
                         ELSE Enter(SetK(q, K("fei", k.n, 0, <<>>), Fl("n")),
                                    FindIn(q, q.hp[v.i].c, "getIterator", <<>>), v.i, <<>>, <<v>>)
       [] k.k = "fei" -> Enter(SetK(q, K("feh", k.n, 0, <<v>>), Fl("n")),
                               FindIn(q, q.hp[v.i].c, "hasNext", <<>>), v.i, <<>>, <<>>)
       [] k.k = "feh" -> IF Truth(v)
                         THEN LET it == k.vs[1].i
                              IN Enter(SetK(q, K("fen", k.n, 0, k.vs), Fl("n")),
                                       FindIn(q, q.hp[it].c, "next", <<>>), it, <<>>, <<>>)
                         ELSE Rel(Go(p, Fl("n")), k.vs)
       [] k.k = "fen" -> LET fr == Len(q.env)
                         IN SetK([q EXCEPT !.env[fr].sc = Append(@, << [n |-> e.n, v |-> v] >>)],
                                 K("feb", k.n, 0, k.vs), Ex(e.b))

-----------------------------------------------------------------------------
(* Statements *)

OpenScope(q) == [q EXCEPT !.env[Len(q.env)].sc = Append(@, <<>>)]
CloseScope(q) ==
  LET fr == Len(q.env)
      sc == q.env[fr].sc
      top == sc[Len(sc)]
  IN Rel([q EXCEPT !.env[fr].sc = SubSeq(@, 1, Len(@) - 1)], [i \in DOMAIN top |-> top[i].v])

RECURSIVE AllVars(_)
AllVars(sc) == IF sc = <<>> THEN <<>>
               ELSE [i \in DOMAIN Head(sc) |-> Head(sc)[i].v] \o AllVars(Tail(sc))
LeaveFrame(q) == Rel([q EXCEPT !.env = SubSeq(@, 1, Len(@) - 1)], AllVars(Frame(q).sc))

ExStep(q) ==
  LET n == q.c.n
      e == N(q, n)
      wait(k, x) == PushK(q, K(k, n, 0, <<>>), Ev(x))
  IN CASE e.k = "block" -> PushK(OpenScope(q), K("block", n, 0, <<>>), Fl("n"))
       [] e.k = "body" -> PushK(q, K("body", n, 0, <<>>), Fl("n"))
       [] e.k = "if" -> wait("if", e.c)
       [] e.k = "while" -> wait("whc", e.c)
       [] e.k = "for" -> PushK(OpenScope(q), K("fori", n, 0, <<>>), IF e.i = 0 THEN Fl("n") ELSE Ex(e.i))
       [] e.k = "foreach" -> wait("fec", e.e)
       [] e.k = "switch" -> wait("swv", e.e)
       [] e.k = "break" -> Go(q, Fl("b"))
       [] e.k = "continue" -> Go(q, Fl("c"))
       [] e.k = "return" -> IF e.e = 0 THEN Go(q, FlR(Void)) ELSE wait("ret", e.e)
       [] e.k = "throw" -> IF e.e = 0 THEN Go(q, Fl("t")) ELSE wait("thr", e.e)
       [] e.k = "exit" -> wait("exit", e.e)
       [] e.k = "expr" -> wait("expr", e.e)
       [] e.k = "print" -> wait("print", e.e)
       [] e.k = "assert" -> wait("assert", e.e)
       [] e.k = "decl" -> IF e.e = 0 THEN PushK(q, K("decl", n, 0, <<>>), Va(Default(e.ty))) ELSE wait("decl", e.e)
       [] e.k = "delete" -> LET l == Resolve(q, e.p) IN Rel(Write(Go(q, Fl("n")), l, Obj(0)), <<Read(q, l)>>)
       \* the exception that is being handled around this statement must survive it
       [] e.k = "try" -> Inc(PushK(q, K("tryb", n, 0, <<q.ex>>), Ex(e.b)), q.ex)

\* first catch block that accepts the raised exception (0: none)
Handler(q, e) ==
  LET S == {i \in DOMAIN e.cs : e.cs[i].ty = "" \/ InstanceOf(q, q.ex, e.cs[i].ty)}
  IN IF S = {} THEN 0 ELSE FirstIdx(S)

\* body and catch block are done with flow c: run the finally block (if there is one), then finish
Finally(q, k, c) ==
  LET e == N(q, k.n)
      k2 == [K("tryf", k.n, 0, k.vs \o <<q.ex, c.v>>) EXCEPT !.f = c.f]
      q1 == Inc(q, q.ex)
  IN SetK(q1, k2, IF e.f = 0 THEN Fl("n") ELSE Ex(e.f))

\* continuations that have a say when an exception passes, or that do not belong to an expression
Waiting == {"block", "body", "whb", "fori", "fors", "forb", "fore", "forc", "feb", "fel", "swb", "swc", "tryb", "tryc",
            "tryd", "tryf", "call", "dtor"}

\* flow f reaches the continuation on top of the stack
FlStep(q) ==
  LET k == TopK(q)
      f == q.c.f
      e == IF k.n = 0 THEN [k |-> ""] ELSE N(q, k.n)
      p == PopK(q)
  IN CASE k.k = "block" -> IF f = "n" /\ k.i < Len(e.b) THEN SetK(q, [k EXCEPT !.i = @ + 1], Ex(e.b[k.i + 1]))
                           ELSE CloseScope(p)
       [] k.k = "body" -> IF f = "n" /\ k.i < Len(e.b) THEN SetK(q, [k EXCEPT !.i = @ + 1], Ex(e.b[k.i + 1]))
                          ELSE p
       [] k.k = "whb" -> IF f \in {"n", "c"} THEN SetK(q, K("whc", k.n, 0, <<>>), Ev(e.c))
                         ELSE Go(p, IF f = "b" THEN Fl("n") ELSE q.c)
       [] k.k \in {"fori", "fors"} -> IF f # "n" THEN CloseScope(p)
                                      \* without a condition the loop goes on
                                      ELSE IF e.c = 0 THEN SetK(q, K("forb", k.n, 0, <<>>), Ex(e.b))
                                      ELSE SetK(q, K("forc", k.n, 0, <<>>), Ev(e.c))
       [] k.k = "forb" -> IF f \in {"n", "c"}
                          THEN SetK(q, K("fors", k.n, 0, <<>>), IF e.s = 0 THEN Fl("n") ELSE Ex(e.s))
                          ELSE SetK(q, K("fore", k.n, 0, <<>>), IF f = "b" THEN Fl("n") ELSE q.c)
       [] k.k \in {"fore", "forc"} -> CloseScope(p)
       [] k.k = "feb" -> LET q1 == CloseScope(q)
                             it == k.vs[1].i
                         IN IF f \in {"n", "c"}
                            THEN \* the loop variable is given up first, then the next item is asked for
                                 SetK(q1, K("fel", k.n, 0, k.vs), Fl("n"))
                            ELSE IF f = "b" THEN SetK(q1, K("rel", 0, 0, k.vs), Fl("n"))
                            ELSE SetK(q1, K("rel", 0, 0, k.vs), q.c)
       [] k.k = "fel" -> Enter(SetK(q, K("feh", k.n, 0, k.vs), Fl("n")),
                               FindIn(q, q.hp[k.vs[1].i].c, "hasNext", <<>>), k.vs[1].i, <<>>, <<>>)
       [] k.k = "swb" -> CASE f \in {"n", "b"} -> Rel(Go(p, Fl("n")), k.vs)
                           [] f = "c" -> Rel(SetK(q, K("swv", k.n, 0, <<>>), Ev(e.e)), k.vs)
                           [] OTHER -> Rel(p, k.vs)
       [] k.k = "swc" /\ f = "n" -> IF e.d = 0 THEN Rel(Go(p, Fl("n")), k.vs)
                                    ELSE SetK(q, K("swb", k.n, 0, k.vs), Ex(e.d))
       [] k.k = "tryb" ->
            IF f # "t" THEN Finally(q, k, q.c)
            ELSE IF e.cs = <<>> THEN Finally(q, k, Fl("n"))
            ELSE LET h == Handler(q, e)
                 IN IF h = 0 THEN Finally(q, k, q.c)
                    ELSE \* the handled exception is kept while its handler runs
                         LET q1 == OpenScope(Inc(q, q.ex))
                             fr == Len(q.env)
                             q2 == IF e.cs[h].ty = "" THEN q1
                                   ELSE Inc([q1 EXCEPT !.env[fr].sc[Len(q1.env[fr].sc)] = << [n |-> e.cs[h].n, v |-> q.ex] >>], q.ex)
                         IN SetK(q2, K("tryc", k.n, h, Append(k.vs, q.ex)), Ex(e.cs[h].b))
       [] k.k = "tryc" -> \* first the variable of the handler, then the handled exception, then finally
            SetK(CloseScope(q), [k EXCEPT !.k = "tryd"], q.c)
       [] k.k = "tryd" -> Finally(Rel(q, <<k.vs[2]>>), [k EXCEPT !.vs = <<k.vs[1]>>], q.c)
       [] k.k = "tryf" ->
            LET before == k.vs[1]       \* exception that was handled around the statement
                mine == k.vs[2]         \* exception at the end of body / handler
                ret == k.vs[3]          \* pending result
                c == IF f = "n" THEN Ctl("fl", 0, ret, k.f) ELSE q.c
                q1 == IF f = "n" THEN Rel(Inc([p EXCEPT !.ex = mine], mine), <<q.ex>>) ELSE Rel(p, <<ret>>)
                q2 == IF c.f \in {"x", "t"} THEN q1 ELSE Rel(Inc([q1 EXCEPT !.ex = before], before), <<q1.ex>>)
            IN Rel(Go(q2, c), <<mine, before>>)
       [] k.k = "call" ->
            \* locals and parameters go first, then what the caller held for the call
            LET q1 == LeaveFrame(p)
                q2 == [q1 EXCEPT !.ks = Append(@, K("rel", 0, 0, k.vs))]
            IN Go(q2, IF f \in {"n", "r"} THEN Va(q.c.v) ELSE q.c)
       [] k.k = "dtor" /\ k.i = 1 ->
            IF f \in {"n", "r"} THEN SetK(LeaveFrame(q), [k EXCEPT !.i = 2], Fl("n")) ELSE End(q, "inc")
       [] k.k = "dtor" /\ k.i = 2 ->
            LET o == k.l.a
                fs == q.hp[o].f
            IN Rel(SetK([q EXCEPT !.hp[o].ls = "dead", !.hp[o].f = <<>>], [k EXCEPT !.i = 3], Fl("n")),
                   [i \in DOMAIN fs |-> fs[i].v])
       [] k.k = "dtor" /\ k.i = 3 -> Rel(Go(p, k.c), k.vs)
       \* anything else was waiting for a value that will never come: the temporaries of one expression are given
       \* up together, in any order
       [] OTHER -> IF p.ks # <<>> /\ TopK(p).k \notin Waiting /\ f = "t"
                   THEN SetK(p, [TopK(p) EXCEPT !.vs = @ \o k.vs], q.c)
                   ELSE Rel(p, k.vs)

-----------------------------------------------------------------------------
(* Giving up references *)

RelOne(q, i) ==
  LET v == q.rl[i]
      rest == SubSeq(q.rl, 1, i - 1) \o SubSeq(q.rl, i + 1, Len(q.rl))
      o == q.hp[v.i]
      k == [K("dtor", 0, 1, rest) EXCEPT !.c = q.c, !.l = [w |-> "", a |-> v.i, b |-> 0]]
      d == FindIn(q, o.c, "Destructor", <<>>)
  IN IF o.rc > 1 \/ o.ls = "dying" THEN [q EXCEPT !.hp[v.i].rc = @ - 1, !.rl = rest]
     ELSE IF d.ok
     THEN [q EXCEPT !.hp[v.i].rc = 0, !.hp[v.i].ls = "dying", !.rl = <<>>,
                    !.ks = Append(@, k),
                    !.env = Append(@, [th |-> v.i, cls |-> d.cl, sc |-> <<<<>>>>]),
                    !.c = Ex(MethodOf(q, d).body)]
     ELSE [q EXCEPT !.hp[v.i].rc = 0, !.hp[v.i].ls = "dying", !.rl = <<>>,
                    !.ks = Append(@, [k EXCEPT !.i = 2]), !.c = Fl("n")]

RelStep(q) ==
  LET S == {i \in DOMAIN q.rl : IsRef(q.rl[i])}
  IN IF S = {} THEN {[q EXCEPT !.rl = <<>>]}
     ELSE LET picks == {i \in S : \A j \in S : q.rl[j].i = q.rl[i].i => i <= j}
          IN {RelOne(q, i) : i \in picks}

-----------------------------------------------------------------------------
(* Observable steps *)

Trace(q) == Progs[q.pid].trace

PrintOk(q) == q.tp < Len(Trace(q)) /\ Trace(q)[q.tp + 1] = Text(q.c.v)

Mismatch(q, what, got) == PrintT(<<"MISMATCH", q.pid, q.tp, what, got>>)

Note(q) ==  \* the program has ended: does that agree with the recorded end?
  LET e == Progs[q.pid].end
      kind == IF q.st = "fatal" THEN "fatal"
              ELSE IF q.c.m = "va" THEN "ok"
              ELSE IF q.c.f = "t" THEN "exc"
              ELSE "ok"
      code == IF kind # "ok" THEN 255
              ELSE IF q.c.m = "va" THEN (IF q.c.v.t = "int" THEN q.c.v.i % 256 ELSE 0)
              ELSE q.ex.i % 256
      good == e.kind = kind /\ e.code = code /\ q.tp = Len(Trace(q))
  IN IF good THEN PrintT(<<"ACCEPT", q.pid>>) ELSE Mismatch(q, "end", <<kind, code, e.kind, e.code, Len(Trace(q))>>)

IsPrint(q) == q.c.m = "va" /\ q.ks # <<>> /\ TopK(q).k = "print"
AtEnd(q) == q.ks = <<>> /\ q.c.m \in {"va", "fl"}

Next ==
  /\ s.st = "run"
  /\ IF s.rl # <<>> THEN s' \in RelStep(s)
     ELSE IF AtEnd(s) THEN Note(s) /\ s' = [s EXCEPT !.st = "done"]
     ELSE IF IsPrint(s)
     THEN IF s.tp >= MaxLines THEN PrintT(<<"INCONCLUSIVE", s.pid>>) /\ s' = End(s, "inc")
          ELSE IF PrintOk(s) THEN s' = [Rel(Go(PopK(s), Fl("n")), <<s.c.v>>) EXCEPT !.tp = @ + 1]
          ELSE Mismatch(s, "print", Text(s.c.v)) /\ FALSE
     ELSE LET t == CASE s.c.m = "ev" -> EvStep(s)
                     [] s.c.m = "va" -> VaStep(s)
                     [] s.c.m = "ex" -> ExStep(s)
                     [] s.c.m = "fl" -> FlStep(s)
          IN /\ s' = t
             /\ CASE t.st = "run" -> TRUE
                  [] t.st = "inc" -> PrintT(<<"INCONCLUSIVE", t.pid>>)
                  [] t.st = "fatal" -> Note(t)
                  [] OTHER -> PrintT(<<"STUCK", t.pid, t.st>>)

Start(i) ==
  LET p == Progs[i]
      gl == [j \in DOMAIN p.globals |-> [n |-> p.globals[j].n, v |-> p.globals[j].v]]
  IN [pid |-> i, c |-> Ex(p.main), ks |-> <<K("call", 0, 0, <<>>)>>,
      env |-> << [th |-> 0, cls |-> "$global", sc |-> << << [n |-> "argc", v |-> Num(1)], [n |-> "args", v |-> Str("")] >> >>] >>,
      hp |-> <<>>, gl |-> gl, ex |-> Void, rl |-> <<>>, tp |-> 0, st |-> "run"]

Init == s \in {Start(i) : i \in DOMAIN Progs}

Spec == Init /\ [][Next]_s

-----------------------------------------------------------------------------
(* Properties of the specification itself, checked on every state *)

RECURSIVE Cnt(_, _)
Cnt(o, vs) == IF vs = <<>> THEN 0 ELSE (IF Head(vs).t = "obj" /\ Head(vs).i = o THEN 1 ELSE 0) + Cnt(o, Tail(vs))

RECURSIVE SumK(_, _), SumE(_, _), SumH(_, _)
SumK(o, ks) == IF ks = <<>> THEN 0
               ELSE Cnt(o, Head(ks).vs) + (IF Head(ks).k = "dtor" THEN Cnt(o, <<Head(ks).c.v>>) ELSE 0) + SumK(o, Tail(ks))
SumE(o, env) == IF env = <<>> THEN 0 ELSE Cnt(o, AllVars(Head(env).sc)) + SumE(o, Tail(env))
SumH(o, h) == IF h = <<>> THEN 0 ELSE Cnt(o, [i \in DOMAIN Head(h).f |-> Head(h).f[i].v]) + SumH(o, Tail(h))

Holders(o) == SumK(o, s.ks) + SumE(o, s.env) + SumH(o, s.hp)
              + Cnt(o, [i \in DOMAIN s.gl |-> s.gl[i].v]) + Cnt(o, <<s.c.v, s.ex>>) + Cnt(o, s.rl)

\* every reference is counted, and nothing refers to an object that is gone
RefCounts == s.st \in {"run", "done"} => \A o \in DOMAIN s.hp : s.hp[o].rc = Holders(o)
LifeStates == \A o \in DOMAIN s.hp : /\ s.hp[o].ls = "live" => s.hp[o].rc > 0
                                     /\ s.hp[o].ls = "dead" => s.hp[o].rc = 0

\* methods only run on objects that exist
ThisAlive == \A i \in DOMAIN s.env : s.env[i].th # 0 => s.hp[s.env[i].th].ls # "dead"

\* one frame per call or destructor that is in progress
FramesMatch == s.st = "run" =>
  Len(s.env) = Cardinality({i \in DOMAIN s.ks : s.ks[i].k = "call" \/ (s.ks[i].k = "dtor" /\ s.ks[i].i = 1)})

\* after the end only what globals, cycles or the uncaught exception hold is left
RECURSIVE Reach(_, _)
Reach(S, h) == LET T == S \cup UNION {{h[o].f[i].v.i : i \in {j \in DOMAIN h[o].f : IsRef(h[o].f[j].v)}} : o \in S}
               IN IF T = S THEN S ELSE Reach(T, h)
Succ(o, h) == {h[o].f[i].v.i : i \in {j \in DOMAIN h[o].f : IsRef(h[o].f[j].v)}}
NoLeak == s.st = "done" =>
  LET roots == {s.gl[i].v.i : i \in {j \in DOMAIN s.gl : IsRef(s.gl[j].v)}} \cup (IF IsRef(s.ex) THEN {s.ex.i} ELSE {})
      live == {o \in DOMAIN s.hp : s.hp[o].ls = "live"}
      cyc == {o \in live : o \in Reach(Succ(o, s.hp), s.hp)}
  IN live \subseteq Reach(roots \cup cyc, s.hp)
=============================================================================
