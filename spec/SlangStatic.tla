------------------------------- MODULE SlangStatic -------------------------------
(* The static rules of slang: which programs are rejected before execution.

   A program is a tree (harness/static.py writes it): classes with members and methods, functions, globals,
   enumerations.  Verdict(p) collects every violation of a rule as <<"bad", rule>>; a construct about which the
   language definition (and this specification) says nothing gives <<"open", rule>>.  A program is

     - accepted   if nothing was collected,
     - rejected   if something "bad" was collected,
     - unspecified otherwise.

   Rules: "type", "const", "vis", "unknown", "abstract", "flow", "throws", "dup", "static".                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Chunk              \* cases judged in one step

Cases == JsonDeserialize(IOEnv.CASES)

----------------------------------------------------------------------------------
(* Types *)

INTS == {"int16", "int", "int64"}
NUMS == INTS \union {"float", "double"}
ATOMS == NUMS \union {"bool", "string"}

Bad(r) == {<<"bad", r>>}
Open(r) == {<<"open", r>>}

IsClass(p, t) == t \in DOMAIN p.classes
IsEnum(p, t) == t \in DOMAIN p.enums
Known(p, t) == t \in ATOMS \/ IsClass(p, t) \/ IsEnum(p, t)

\* the class and its base classes, most derived first (a cycle is cut)
RECURSIVE AncFrom(_, _, _)
AncFrom(p, c, seen) == IF ~IsClass(p, c) \/ c \in seen THEN <<>> ELSE <<c>> \o AncFrom(p, p.classes[c].base, seen \union {c})
Anc(p, c) == AncFrom(p, c, {})
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Cyclic(_, _, _)
Cyclic(p, c, seen) == IF ~IsClass(p, c) THEN FALSE ELSE c \in seen \/ Cyclic(p, p.classes[c].base, seen \union {c})

\* direct base class or directly implemented interface
Direct(p, d, b) == IsClass(p, d) /\ (p.classes[d].base = b \/ b \in Range(p.classes[d].ifaces))
Related(p, d, b) == IsClass(p, d) /\ (b \in Range(Anc(p, d)) \/ \E a \in Range(Anc(p, d)) : b \in Range(p.classes[a].ifaces))

Arith == {"+", "-", "*", "/"}
Order == {"<", "<=", ">", ">="}
Equal == {"==", "!="}
Ident == {"===", "!=="}

Comparable(p, op, l, r) ==
  CASE l = "int16" -> r = "int16"
    [] l \in NUMS -> r \in NUMS \/ (l = "int" /\ IsEnum(p, r))
    [] l = "string" -> r = "string"
    [] l = "bool" -> r = "bool" /\ op \in Equal
    [] IsEnum(p, l) -> r = l \/ r = "int"
    [] OTHER -> FALSE

\* result type of an operator on atomic types and enumerations; "" if there is none
AtomBin(p, op, l, r) ==
  CASE op \in {"&&", "||"} -> "bool"
    [] op \in Order \union Equal -> IF Comparable(p, op, l, r) THEN "bool" ELSE ""
    [] l \in NUMS /\ r \in NUMS /\ op \in Arith -> l
    [] l \in INTS /\ r \in INTS /\ op = "%" -> l
    [] l \in INTS /\ r = l /\ op \in {"&", "|"} -> l
    [] l = "string" /\ r \in ATOMS /\ op = "+" -> "string"
    [] OTHER -> ""

\* x = e for a variable of type t and a value of type s
Assignable(p, t, s) ==
  CASE t = "bool" -> s \in ATOMS
    [] t = "int16" -> s \in INTS
    [] t = "int" -> s \in NUMS \union {"bool"} \/ IsEnum(p, s)
    [] t \in NUMS -> s \in NUMS \union {"bool"}
    [] t = "string" -> s \in ATOMS \/ IsEnum(p, s)
    [] OTHER -> t = s /\ t # "void"

\* cast<t>(e)
Castable(p, t, s) ==
  CASE t \in ATOMS -> s \in ATOMS \/ (IsEnum(p, s) /\ t \in {"int", "string"})
    [] OTHER -> FALSE

----------------------------------------------------------------------------------
(* Members and methods *)

\* all fields called n visible in the hierarchy of class c, with their owners, nearest first
FieldsOf(p, c, n) ==
  LET RECURSIVE f(_)
      f(a) == IF a = <<>> THEN <<>>
              ELSE SelectSeq([i \in DOMAIN p.classes[a[1]].fs |-> [o |-> a[1], f |-> p.classes[a[1]].fs[i]]],
                             LAMBDA x : x.f.n = n) \o f(Tail(a))
  IN f(Anc(p, c))

MethodsOf(p, c, n) ==
  LET RECURSIVE f(_)
      f(a) == IF a = <<>> THEN <<>>
              ELSE SelectSeq([i \in DOMAIN p.classes[a[1]].ms |-> [o |-> a[1], m |-> p.classes[a[1]].ms[i]]],
                             LAMBDA x : x.m.n = n) \o f(Tail(a))
  IN f(Anc(p, c))

\* may code of class ctx use something of visibility v that class owner declares, through a value of type recv?
Access(p, ctx, owner, v, recv, viabase) ==
  CASE v = "public" -> {}
    [] ctx = "" -> Bad("vis")
    [] v = "private" -> IF owner = ctx THEN (IF recv = ctx THEN {} ELSE Open("vis")) ELSE Bad("vis")
    [] OTHER -> IF recv = ctx \/ viabase THEN {}
                ELSE IF owner \in Range(Anc(p, ctx)) THEN Open("vis")   \* protected, through an object of another class of the family
                ELSE Bad("vis")

\* do arguments of types ts fit the parameters exactly (the rest has default values)?
Fits(m, ts) == /\ Len(ts) <= Len(m.ps)
               /\ \A i \in DOMAIN m.ps : IF i <= Len(ts) THEN m.ps[i].ty = ts[i] ELSE m.ps[i].hd

AbstractMethods(p, c) == {i \in DOMAIN p.classes[c].ms : p.classes[c].ms[i].ab}

\* an abstract method of a base class that no class below implements
Unimplemented(p, c) ==
  \E k \in DOMAIN Anc(p, c) : \E i \in AbstractMethods(p, Anc(p, c)[k]) :
     LET m == p.classes[Anc(p, c)[k]].ms[i]
     IN ~\E j \in 1..(k-1) : \E h \in Range(p.classes[Anc(p, c)[j]].ms) : h.n = m.n /\ ~h.ab

----------------------------------------------------------------------------------
(* Expressions: [t type, c constant?, er what was collected]; m is the method, g the local variables *)

T(t) == [t |-> t, c |-> FALSE, er |-> {}]
Err(e) == [t |-> "any", c |-> FALSE, er |-> e]

\* the next name of a path whose left part has type t
Step(p, m, l, n, viabase) ==
  IF l.t = "any" THEN l
  ELSE IF ~IsClass(p, l.t) THEN Err(l.er \union Bad("unknown"))
  ELSE LET fs == FieldsOf(p, l.t, n)
       IN IF fs = <<>> THEN Err(l.er \union (IF MethodsOf(p, l.t, n) # <<>> THEN Open("unknown") ELSE Bad("unknown")))
          ELSE [t |-> fs[1].f.ty, c |-> l.c \/ (fs[1].f.c /\ ~(m.ctor /\ fs[1].o = m.cl)),
                er |-> l.er \union Access(p, m.cl, fs[1].o, fs[1].f.vis, l.t, viabase)]

Head1(p, m, g, n) ==
  CASE n = "this" -> IF m.cl = "" THEN Err(Bad("unknown")) ELSE IF m.st THEN Err(Open("static")) ELSE [t |-> m.cl, c |-> m.c, er |-> {}]
    [] n = "base" -> IF m.cl = "" \/ (m.cl # "" /\ p.classes[m.cl].base = "") THEN Err(Open("unknown"))
                     ELSE [t |-> p.classes[m.cl].base, c |-> m.c, er |-> {}]
    [] n \in DOMAIN g -> [t |-> g[n].t, c |-> g[n].c, er |-> {}]
    [] m.cl # "" /\ FieldsOf(p, m.cl, n) # <<>> ->
         LET x == FieldsOf(p, m.cl, n)[1]
         IN [t |-> x.f.ty, c |-> m.c \/ (x.f.c /\ ~m.ctor),       \* constructors and destructors may set constant members
             er |-> Access(p, m.cl, x.o, x.f.vis, m.cl, FALSE) \union (IF m.st /\ ~x.f.st THEN Open("static") ELSE {})]
    [] \E x \in Range(p.globals) : x.n = n -> LET x == CHOOSE y \in Range(p.globals) : y.n = n IN [t |-> x.ty, c |-> x.c, er |-> {}]
    [] \/ m.cl # "" /\ MethodsOf(p, m.cl, n) # <<>>                  \* the name of a method used as a value
       \/ \E f \in Range(p.funcs) : f.n = n -> Err(Open("unknown"))
    [] OTHER -> Err(Bad("unknown"))

Path(p, m, g, s) ==
  IF Len(s) >= 2 /\ s[1] \notin DOMAIN g /\ IsEnum(p, s[1])
  THEN IF Len(s) = 2 /\ s[2] \in Range(p.enums[s[1]]) THEN [t |-> s[1], c |-> TRUE, er |-> {}] ELSE Err(Bad("unknown"))
  ELSE IF Len(s) >= 2 /\ s[1] \notin DOMAIN g /\ IsClass(p, s[1])
  THEN \* a static member, named through its class
       LET fs == FieldsOf(p, s[1], s[2])
           h == IF fs = <<>> THEN Err(Bad("unknown"))
                ELSE [t |-> fs[1].f.ty, c |-> fs[1].f.c,
                      er |-> Access(p, m.cl, fs[1].o, fs[1].f.vis, s[1], FALSE)
                             \union (IF ~fs[1].f.st \/ fs[1].o \notin {s[1], p.classes[s[1]].base} THEN Open("static") ELSE {})
                             \union (IF m.cl # "" /\ m.c THEN Open("const") ELSE {})]
           RECURSIVE f(_, _)
           f(l, r) == IF r = <<>> THEN l ELSE f(Step(p, m, l, r[1], FALSE), Tail(r))
       IN f(h, SubSeq(s, 3, Len(s)))
  ELSE LET RECURSIVE f(_, _, _)
           f(l, r, vb) == IF r = <<>> THEN l ELSE f(Step(p, m, l, r[1], vb), Tail(r), FALSE)
       IN f(Head1(p, m, g, s[1]), Tail(s), s[1] = "base")

\* the call of a method n with arguments as (their types and constness) among candidates ms (nearest first)
Choose(p, m, ms, as, recv, constrecv, viabase, selfcall) ==
  IF \E a \in Range(as) : a.t = "any" THEN Err(Open("type"))
  ELSE LET ok == SelectSeq(ms, LAMBDA x : Fits(x.m, [i \in DOMAIN as |-> as[i].t]))
           vis == SelectSeq(ok, LAMBDA x : Access(p, m.cl, x.o, x.m.vis, recv, viabase) = {})
           half == SelectSeq(ok, LAMBDA x : \A y \in Access(p, m.cl, x.o, x.m.vis, recv, viabase) : y[1] = "open")
       IN IF ms = <<>> THEN Err(Bad("unknown"))
          ELSE IF ok = <<>> THEN Err(Bad("type"))
          ELSE IF vis = <<>> THEN (IF half # <<>> \/ ms[1].m.oper \/ (viabase /\ ms[1].m.n = "Constructor")
                                      \/ \E a \in Range(Anc(p, recv)) : \E f \in Range(p.classes[a].ifaces) : f \in DOMAIN p.classes /\ MethodsOf(p, f, ms[1].m.n) # <<>>
                                   THEN Err(Open("vis")) ELSE Err(Bad("vis")))
          ELSE LET x == vis[1].m
                   refs == IF \E i \in DOMAIN as : x.ps[i].ref /\ ~x.ps[i].c /\ as[i].c THEN Bad("const") ELSE {}
                   cst == IF constrecv /\ ~x.c /\ ~x.st THEN Bad("const") ELSE {}
                   st == IF selfcall /\ m.st /\ ~x.st THEN Bad("static") ELSE {}
                   ab == IF x.ab /\ viabase THEN Open("abstract") ELSE {}
                   amb == IF Len(SelectSeq(ok, LAMBDA y : y.o = vis[1].o)) > 1 THEN Open("type") ELSE {}
               IN [t |-> x.ret, c |-> FALSE, er |-> refs \union cst \union st \union ab \union amb]

\* an operator on a value of a class
ObjBin(p, m, op, l, r) ==
  LET name == IF op \in {"!=", "===", "!=="} THEN "operator==" ELSE "operator" \o op
      ms == MethodsOf(p, l.t, name)
      own == SelectSeq(ms, LAMBDA x : x.o = l.t /\ Fits(x.m, <<r.t>>))
  IN IF op \in {"&&", "||"} THEN T("bool")
     ELSE IF own # <<>> THEN (IF op \in Ident \union {"!="} /\ op # "!=" THEN T("bool")
                              ELSE IF op = "!=" THEN T("bool")
                              ELSE [t |-> own[1].m.ret, c |-> FALSE, er |-> IF l.c /\ ~own[1].m.c THEN Open("const") ELSE {}])
     ELSE IF ms # <<>> THEN Err(Open("type"))        \* inherited operators and other parameter types
     ELSE IF op \in Equal /\ l.t = r.t THEN T("bool")
     ELSE IF op \in Equal \union Ident /\ (Related(p, l.t, r.t) \/ Related(p, r.t, l.t)) THEN Err(Open("type"))
     ELSE Err(Bad("type"))

BinTy(p, m, op, l, r) ==
  LET er == l.er \union r.er
      x == IF l.t = "any" \/ r.t = "any" THEN Err({})
           ELSE IF l.t = "void" \/ r.t = "void" THEN Err(IF op \in {"&&", "||"} THEN Open("type") ELSE Bad("type"))
           ELSE IF IsClass(p, l.t) THEN ObjBin(p, m, op, l, r)
           ELSE IF op \in Ident THEN Err(Open("type"))
           ELSE LET t == AtomBin(p, op, l.t, r.t) IN IF t = "" THEN Err(Bad("type")) ELSE T(t)
  IN [x EXCEPT !.er = @ \union er]

\* a value of type s initialises a variable of type t
InitEr(p, t, s) ==
  IF s = "any" THEN {}
  ELSE IF IsClass(p, t) THEN (IF t = s \/ Direct(p, s, t) THEN {}
                              ELSE IF Related(p, s, t) \/ MethodsOf(p, t, "operator=") # <<>> THEN Open("type") ELSE Bad("type"))
  ELSE IF IsClass(p, s) /\ t = "bool" THEN Open("type")
  ELSE IF IsClass(p, s) /\ t \in ATOMS /\ s # "any" /\ \E x \in Range(MethodsOf(p, s, "=operator")) : TRUE THEN Open("type")
  ELSE IF Assignable(p, t, s) THEN {} ELSE Bad("type")

AssignEr(p, t, s) ==
  IF s = "any" \/ t = "any" THEN {}
  ELSE IF IsClass(p, t) THEN (IF t = s THEN {}
                              ELSE IF Related(p, s, t) \/ MethodsOf(p, t, "operator=") # <<>> THEN Open("type") ELSE Bad("type"))
  ELSE InitEr(p, t, s)

\* e has to have exactly type t (arguments of return, branches of ?:)
SameEr(p, t, s) == IF s = "any" \/ t = s THEN {}
                   ELSE IF Related(p, s, t) \/ Related(p, t, s) THEN Open("type") ELSE Bad("type")

RECURSIVE Ty(_, _, _, _)

Args(p, m, g, e) == [i \in DOMAIN e.a |-> Ty(p, m, g, e.a[i])]
ArgEr(as) == UNION {as[i].er : i \in DOMAIN as}
Plus(x, er) == [x EXCEPT !.er = @ \union er]

\* a constructor of class c itself; whether those of its base classes count as well is not specified
OwnCtor(p, m, c, as, recv, constrecv, viabase) ==
  LET all == MethodsOf(p, c, "Constructor")
      own == SelectSeq(all, LAMBDA y : y.o = c)
      fit(ms) == \E y \in Range(ms) : Fits(y.m, [i \in DOMAIN as |-> as[i].t])
  IN IF fit(all) /\ ~fit(own) THEN Err(Open("type")) ELSE Choose(p, m, own, as, recv, constrecv, viabase, FALSE)

CallTy(p, m, g, e) ==
  LET as == Args(p, m, g, e)
      ae == ArgEr(as)
      own == IF m.cl # "" THEN MethodsOf(p, m.cl, e.n) ELSE <<>>
      funs == SelectSeq([i \in DOMAIN p.funcs |-> [o |-> "", m |-> p.funcs[i]]], LAMBDA x : x.m.n = e.n)
      ctor == e.n \in {"Constructor", "Destructor"}
  IN Plus(
     CASE e.mode \in {"fun", "self"} ->
            IF own # <<>> THEN Choose(p, m, own, as, m.cl, m.c, FALSE, TRUE)
            ELSE IF funs = <<>> THEN Err(Bad("unknown"))
            ELSE LET x == Choose(p, [m EXCEPT !.cl = ""], [i \in DOMAIN funs |-> [funs[i] EXCEPT !.m.vis = "public"]], as, "", FALSE, FALSE, FALSE)
                 IN x
       [] e.mode = "base" ->
            IF m.cl = "" THEN Err(Bad("unknown"))
            ELSE IF p.classes[m.cl].base = "" THEN Err(Open("unknown"))
            ELSE IF ctor /\ as = <<>> THEN Err(Open("type"))
            ELSE IF ctor THEN OwnCtor(p, m, p.classes[m.cl].base, as, m.cl, m.c, TRUE)
            ELSE Choose(p, m, MethodsOf(p, p.classes[m.cl].base, e.n), as, p.classes[m.cl].base, m.c, TRUE, FALSE)
       [] e.mode = "stat" ->
            IF ~IsClass(p, e.cl) THEN Err(Bad("unknown"))
            ELSE LET x == Choose(p, m, MethodsOf(p, e.cl, e.n), as, e.cl, FALSE, FALSE, FALSE)
                 IN IF \E y \in Range(MethodsOf(p, e.cl, e.n)) : ~y.m.st THEN Plus(x, Open("static")) ELSE x
       [] e.mode = "path" ->
            LET r == Path(p, m, g, e.p)
            IN IF r.t = "any" THEN r
               ELSE IF ~IsClass(p, r.t) THEN Err(r.er \union (IF r.t \in ATOMS THEN Open("type") ELSE Bad("type")))
               ELSE Plus(Choose(p, m, MethodsOf(p, r.t, e.n), as, r.t, r.c, e.p = <<"base">>, e.p = <<"this">>), r.er)
       [] OTHER ->
            LET r == Ty(p, m, g, e.r)
            IN IF r.t = "any" THEN r
               ELSE IF ~IsClass(p, r.t) THEN Err(r.er \union (IF r.t \in ATOMS THEN Open("type") ELSE Bad("type")))
               ELSE Plus(Choose(p, m, MethodsOf(p, r.t, e.n), as, r.t, r.c, FALSE, FALSE), r.er),
     ae)

NewTy(p, m, g, e) ==
  LET as == Args(p, m, g, e)
      all == MethodsOf(p, e.n, "Constructor")
      ms == SelectSeq(all, LAMBDA x : x.o = e.n)
      fit(cs) == \E y \in Range(cs) : Fits(y.m, [i \in DOMAIN as |-> as[i].t])
      vs == [i \in DOMAIN ms |-> [ms[i] EXCEPT !.m.vis = "public", !.m.c = FALSE]]
      priv == IF \E x \in Range(ms) : x.m.vis # "public" THEN Open("vis") ELSE {}
  IN IF ~IsClass(p, e.n) THEN Err(Bad("unknown"))
     ELSE IF p.classes[e.n].kind = "interface" \/ AbstractMethods(p, e.n) # {} THEN Err(ArgEr(as) \union Bad("abstract"))
     ELSE IF Unimplemented(p, e.n) THEN Err(ArgEr(as) \union Open("abstract"))
     ELSE IF p.classes[e.n].kind = "abstract" THEN Err(ArgEr(as) \union Open("abstract"))
     ELSE IF fit(all) /\ ~fit(ms) THEN Err(ArgEr(as) \union Open("type"))
     ELSE IF ms = <<>> THEN (IF e.a = <<>> THEN T(e.n) ELSE Err(ArgEr(as) \union Bad("type")))
     ELSE LET x == IF e.a = <<>> /\ ~\E y \in Range(ms) : Fits(y.m, <<>>) THEN Err(Open("type"))   \* made without constructor
                   ELSE Choose(p, m, vs, as, e.n, FALSE, FALSE, FALSE)
          IN [t |-> e.n, c |-> FALSE, er |-> x.er \union ArgEr(as) \union priv]

Ty(p, m, g, e) ==
  CASE e.k = "lit" -> T(e.ty)
    [] e.k = "this" -> Head1(p, m, g, "this")
    [] e.k = "get" -> Path(p, m, g, e.p)
    [] e.k = "un" ->
         LET x == Ty(p, m, g, e.e)
         IN IF x.t = "any" THEN x
            ELSE IF x.t = "void" THEN Err(x.er \union Open("type"))
            ELSE IF e.op = "!" THEN [t |-> "bool", c |-> FALSE, er |-> x.er]
            ELSE IF x.t \in NUMS THEN [x EXCEPT !.c = FALSE]
            ELSE Err(x.er \union (IF IsClass(p, x.t) THEN Open("type") ELSE Bad("type")))
    [] e.k = "bin" -> BinTy(p, m, e.op, Ty(p, m, g, e.l), Ty(p, m, g, e.r))
    [] e.k = "and" -> BinTy(p, m, "&&", Ty(p, m, g, e.l), Ty(p, m, g, e.r))
    [] e.k = "or" -> BinTy(p, m, "||", Ty(p, m, g, e.l), Ty(p, m, g, e.r))
    [] e.k = "tern" ->
         LET c == Ty(p, m, g, e.c)  a == Ty(p, m, g, e.x)  b == Ty(p, m, g, e.y)
             er == c.er \union a.er \union b.er \union (IF c.t = "void" \/ a.t = "void" THEN Open("type") ELSE {})
         IN IF a.t = "any" \/ b.t = "any" THEN Err(er)
            ELSE [t |-> a.t, c |-> FALSE, er |-> er \union SameEr(p, a.t, b.t)]
    [] e.k = "asg" ->
         LET l == Path(p, m, g, e.p)
             r == Ty(p, m, g, e.e)
             v == IF e.op = "=" THEN r ELSE BinTy(p, m, e.op, l, r)
         IN [t |-> l.t, c |-> FALSE,
             er |-> l.er \union r.er \union v.er \union (IF l.c THEN Bad("const") ELSE {})
                    \union (IF l.t = "any" THEN {} ELSE IF e.op = "=" THEN AssignEr(p, l.t, r.t)
                            ELSE IF IsClass(p, l.t) THEN Open("type")
                            ELSE AssignEr(p, l.t, v.t) \union AssignEr(p, l.t, r.t))]
    [] e.k = "inc" ->
         LET l == Path(p, m, g, e.p)
         IN [t |-> l.t, c |-> FALSE,
             er |-> l.er \union (IF l.c THEN Bad("const") ELSE {})
                    \union (IF l.t = "any" \/ l.t \in NUMS THEN {}
                            ELSE IF IsClass(p, l.t) /\ MethodsOf(p, l.t, "operator" \o e.op \o e.op) # <<>> THEN Open("type")
                            ELSE Bad("type"))]
    [] e.k = "call" -> CallTy(p, m, g, e)
    [] e.k = "new" -> NewTy(p, m, g, e)
    [] e.k = "cast" ->
         LET x == Ty(p, m, g, e.e)
         IN IF ~Known(p, e.ty) THEN Err(x.er \union Bad("unknown"))
            ELSE IF x.t = "any" THEN [x EXCEPT !.t = e.ty]
            ELSE [t |-> e.ty, c |-> FALSE,
                  er |-> x.er \union (IF Castable(p, e.ty, x.t) THEN {}
                                      ELSE IF e.dyn THEN Open("type")      \* a prefix cast is checked when it is executed
                                      ELSE IF IsClass(p, x.t) /\ (x.t = e.ty \/ Direct(p, x.t, e.ty)) THEN {}
                                      ELSE IF IsEnum(p, x.t) /\ x.t = e.ty THEN Open("type")
                                      ELSE IF Related(p, x.t, e.ty) \/ (IsClass(p, x.t) /\ e.ty \in ATOMS) THEN Open("type")
                                      ELSE Bad("type"))]
    [] e.k = "is" -> LET x == Ty(p, m, g, e.e) IN [t |-> "bool", c |-> FALSE, er |-> x.er \union (IF Known(p, e.ty) THEN {} ELSE Open("unknown"))]
    [] e.k = "typeid" -> LET x == Ty(p, m, g, e.e) IN [t |-> "string", c |-> FALSE, er |-> x.er]
    [] OTHER -> Err(Open("expression"))

----------------------------------------------------------------------------------
(* Statements.  x: [g variables, n names of this scope, er collected, th thrown, lp in a loop or switch?] *)

\* every statement and nested statement of a list
RECURSIVE Flat(_)
FlatL(b) == LET RECURSIVE f(_)
                f(i) == IF i > Len(b) THEN <<>> ELSE Flat(b[i]) \o f(i + 1)
            IN f(1)
Flat(s) == <<s>> \o
  (CASE s.k = "block" -> FlatL(s.b)
     [] s.k = "if" -> Flat(s.x) \o Flat(s.y)
     [] s.k \in {"while", "for", "foreach"} -> Flat(s.b)
     [] s.k = "switch" -> LET RECURSIVE f(_)
                              f(i) == IF i > Len(s.cs) THEN Flat(s.d) ELSE Flat(s.cs[i].b) \o f(i + 1)
                          IN f(1)
     [] s.k = "try" -> LET RECURSIVE f(_)
                           f(i) == IF i > Len(s.cs) THEN Flat(s.f) ELSE Flat(s.cs[i].b) \o f(i + 1)
                       IN Flat(s.b) \o f(1)
     [] OTHER -> <<>>)

\* does the list leave the method on every path, with the leaving statement last?
RECURSIVE Leaves(_)
LeavesL(b) == Len(b) > 0 /\ Leaves(b[Len(b)]) /\ \A i \in 1..(Len(b) - 1) : b[i].k \notin {"return", "throw", "break", "continue", "exit"}
Leaves(s) ==
  CASE s.k \in {"return", "throw"} -> TRUE
    [] s.k = "block" -> LeavesL(s.b)
    [] s.k = "if" -> Leaves(s.x) /\ Leaves(s.y)
    [] s.k = "switch" -> Leaves(s.d) /\ \A i \in DOMAIN s.cs : Leaves(s.cs[i].b)
    [] s.k = "try" -> Leaves(s.b) /\ \A i \in DOMAIN s.cs : Leaves(s.cs[i].b)
    [] OTHER -> FALSE

HasLeave(b) == \E s \in Range(FlatL(b)) : s.k \in {"return", "throw"}

Jumps == {"return", "throw", "break", "continue", "exit"}
\* a case block: ends with a jump, has none at all, or something in between
CaseEr(s) == IF s.k = "none" THEN {}
             ELSE IF s.k # "block" THEN Open("flow")
             ELSE IF Len(s.b) > 0 /\ s.b[Len(s.b)].k \in Jumps THEN {}
             ELSE IF \E y \in Range(FlatL(s.b)) : y.k \in Jumps THEN Open("flow")
             ELSE Bad("flow")

RECURSIVE St(_, _, _, _)
StL(p, m, x, b) == LET RECURSIVE f(_, _)
                       f(y, i) == IF i > Len(b) THEN y ELSE f(St(p, m, y, b[i]), i + 1)
                   IN f(x, 1)

\* a nested scope: its variables are forgotten, what it collected stays
Inner(x, y) == [x EXCEPT !.er = y.er, !.th = y.th]
Scope(x) == [x EXCEPT !.n = {}]
AddEr(x, er) == [x EXCEPT !.er = @ \union er]

Declare(p, x, ty, n, c) ==
  [x EXCEPT !.g = (n :> [t |-> ty, c |-> c]) @@ @, !.n = @ \union {n},
            !.er = @ \union (IF n \in x.n THEN Bad("dup") ELSE {}) \union (IF Known(p, ty) THEN {} ELSE Bad("unknown"))]

CaseValueEr(p, a, b) ==
  IF a = "any" \/ b = "any" THEN {}
  ELSE IF a = "void" \/ b = "void" THEN Open("type")
  ELSE IF a \notin ATOMS /\ b \notin ATOMS THEN (IF a = b THEN {} ELSE Open("type"))
  ELSE IF IsClass(p, a) \/ IsClass(p, b)
       THEN (IF (IsClass(p, a) /\ MethodsOf(p, a, "operator==") # <<>>) \/ (IsClass(p, b) /\ MethodsOf(p, b, "operator==") # <<>>) THEN Open("type") ELSE Bad("type"))
  ELSE IF Comparable(p, "==", a, b) \/ Comparable(p, "==", b, a) THEN {} ELSE Bad("type")

St(p, m, x, s) ==
  CASE s.k = "none" -> x
    [] s.k = "block" -> Inner(x, StL(p, m, Scope(x), s.b))
    [] s.k \in {"expr", "print", "assert", "exit"} ->
         LET e == Ty(p, m, x.g, s.e)
         IN AddEr(x, e.er \union (IF s.k = "expr" /\ (s.e.k \notin {"asg", "inc", "call"} \/ (s.e.k = "call" /\ s.e.mode = "expr")) THEN Open("statement") ELSE {}) \union (IF e.t = "void" /\ s.k # "expr" THEN Open("type") ELSE {}))
    [] s.k = "decl" ->
         LET e1 == IF s.e.k = "none" THEN T(s.ty) ELSE Ty(p, m, x.g, s.e)
             e2 == IF s.e.k = "none" THEN T(s.ty) ELSE Ty(p, m, Declare(p, x, s.ty, s.n, s.c).g, s.e)
             e == IF e1 = e2 THEN e1 ELSE Err(Open("decl"))      \* a variable used in its own initialiser
             al == IF e.c /\ ~s.c /\ IsClass(p, s.ty) THEN Open("const") ELSE {}     \* another name for a constant object
         IN AddEr(Declare(p, x, s.ty, s.n, s.c), e.er \union al \union (IF s.e.k = "none" \/ ~Known(p, s.ty) THEN {} ELSE InitEr(p, s.ty, e.t)))
    [] s.k = "delete" -> LET l == Path(p, m, x.g, s.p)
                         IN AddEr(x, l.er \union (IF l.c THEN Bad("const") ELSE {}) \union (IF l.t \in ATOMS \/ IsEnum(p, l.t) THEN Open("type") ELSE {}))
    [] s.k = "if" ->
         LET c == Ty(p, m, x.g, s.c)
             a == Inner(x, St(p, m, Scope(AddEr(x, c.er)), s.x))
             b == Inner(a, St(p, m, Scope(a), s.y))
         IN AddEr(b, IF c.t = "void" THEN Open("type") ELSE {})
    [] s.k = "while" ->
         LET c == Ty(p, m, x.g, s.c)
             b == St(p, m, [Scope(AddEr(x, c.er)) EXCEPT !.lp = TRUE], s.b)
         IN AddEr(Inner(x, b), (IF c.t = "void" THEN Open("type") ELSE {}) \union (IF s.b.k = "decl" THEN Open("flow") ELSE {}))
    [] s.k = "for" ->
         LET i == St(p, m, Scope(x), s.i)
             c == Ty(p, m, i.g, s.c)
             t == St(p, m, i, s.s)
             b == St(p, m, [Scope(AddEr(t, c.er)) EXCEPT !.lp = TRUE], s.b)
         IN AddEr(Inner(x, b), IF s.b.k = "decl" THEN Open("flow") ELSE {})
    [] s.k = "foreach" ->
         LET e == Ty(p, m, x.g, s.e)
             b == St(p, m, [Declare(p, Scope(x), s.ty, s.n, s.c) EXCEPT !.lp = TRUE], s.b)
             it == IF e.t = "any" THEN {}
                   ELSE IF ~IsClass(p, e.t) THEN Bad("type")
                   ELSE IF MethodsOf(p, e.t, "getIterator") = <<>> THEN Bad("type")
                   ELSE LET i == MethodsOf(p, e.t, "getIterator")[1].m.ret
                            nx == IF IsClass(p, i) THEN MethodsOf(p, i, "next") ELSE <<>>
                        IN IF nx # <<>> /\ nx[1].m.ret = s.ty /\ MethodsOf(p, e.t, "getIterator")[1].m.vis = "public"
                              /\ \A y \in Range(nx) \union Range(MethodsOf(p, i, "hasNext")) : y.m.vis = "public"
                           THEN {} ELSE Open("type")
         IN AddEr(Inner(x, b), e.er \union it \union (IF s.b.k = "decl" THEN Open("flow") ELSE {}))
    [] s.k = "switch" ->
         LET e == Ty(p, m, x.g, s.e)
             RECURSIVE f(_, _)
             f(y, i) == IF i > Len(s.cs) THEN y
                        ELSE LET v == Ty(p, m, y.g, s.cs[i].v)
                                 b == St(p, m, [Scope(y) EXCEPT !.lp = TRUE], s.cs[i].b)
                             IN f(AddEr(Inner(y, b), v.er \union CaseValueEr(p, e.t, v.t) \union CaseEr(s.cs[i].b)), i + 1)
             z == f(AddEr(x, e.er), 1)
         IN AddEr(Inner(z, St(p, m, [Scope(z) EXCEPT !.lp = TRUE], s.d)), CaseEr(s.d))
    [] s.k \in {"break", "continue"} -> AddEr(x, IF x.lp THEN {} ELSE Bad("flow"))
    [] s.k = "return" ->
         IF s.e.k = "none" THEN AddEr(x, IF m.ret = "void" THEN {} ELSE Bad("type"))
         ELSE LET e == Ty(p, m, x.g, s.e)
              IN AddEr(x, e.er \union (IF e.t = "void" THEN (IF m.ret = "void" THEN Open("type") ELSE Bad("type"))
                                       ELSE IF m.ret = "void" THEN (IF e.t = "any" THEN {} ELSE Bad("type"))
                                       ELSE SameEr(p, m.ret, e.t)))
    [] s.k = "throw" ->
         IF s.e.k = "none" THEN AddEr(x, IF m.th THEN {} ELSE Open("throws"))
         ELSE LET e == Ty(p, m, x.g, s.e) IN [AddEr(x, e.er \union (IF e.t = "void" THEN Open("type") ELSE {})) EXCEPT !.th = @ \union {e.t}]
    [] s.k = "try" ->
         LET t == St(p, m, [Scope(x) EXCEPT !.th = {}], s.b)
             \* what the handlers leave of the exceptions of the try block, and what they throw themselves
             RECURSIVE f(_, _, _)
             f(y, left, i) ==
               IF i > Len(s.cs) THEN [y EXCEPT !.th = @ \union (IF s.cs = <<>> THEN {} ELSE left)]
               ELSE LET c == s.cs[i]
                        all == c.ty = ""
                        rest == IF all THEN {} ELSE {z \in left : z # c.ty /\ ~Related(p, z, c.ty)}
                        deep == ~all /\ \E z \in left : z # c.ty /\ Related(p, z, c.ty) /\ ~Direct(p, z, c.ty)
                        d == IF all THEN Scope(y) ELSE Declare(p, Scope(y), c.ty, c.n, c.c)
                        b == St(p, m, d, c.b)
                    IN f(AddEr(Inner(y, b), IF deep THEN Open("throws") ELSE {}), rest, i + 1)
             h == f([x EXCEPT !.er = t.er, !.th = {}], t.th, 1)
             n == Inner(h, St(p, m, Scope(h), s.f))
         IN [n EXCEPT !.th = @ \union x.th]
    [] OTHER -> AddEr(x, Open("statement"))

----------------------------------------------------------------------------------
(* Methods, classes, programs *)

MethodEr(p, m) ==
  IF m.ab THEN UNION {IF Known(p, m.ps[i].ty) THEN {} ELSE Bad("unknown") : i \in DOMAIN m.ps}
  ELSE LET x0 == [g |-> <<>>, n |-> {}, er |-> {}, th |-> {}, lp |-> FALSE]
           RECURSIVE f(_, _)
           f(x, i) == IF i > Len(m.ps) THEN x ELSE f(Declare(p, x, m.ps[i].ty, m.ps[i].n, m.ps[i].c), i + 1)
           x == StL(p, m, Scope(f(x0, 1)), m.body)
           ret == IF m.ret = "void" THEN {}
                  ELSE IF ~Known(p, m.ret) THEN Bad("unknown")
                  ELSE IF ~HasLeave(m.body) THEN Bad("flow")
                  ELSE IF LeavesL(m.body) THEN {} ELSE Open("flow")
           dup == IF \E i, j \in DOMAIN m.ps : i < j /\ m.ps[i].n = m.ps[j].n THEN Bad("dup") ELSE {}
           dfl == UNION {IF m.ps[i].dt \in {"", "any"} \/ m.ps[i].dt = m.ps[i].ty \/ (m.ps[i].dt = "int" /\ m.ps[i].ty \in INTS) THEN {} ELSE Bad("type")
                         : i \in DOMAIN m.ps}
       IN x.er \union ret \union dup \union dfl
          \union (IF m.th \/ x.th = {} THEN {} ELSE IF "any" \in x.th THEN Open("throws") ELSE Bad("throws"))

Sig(m) == <<m.n, [i \in DOMAIN m.ps |-> m.ps[i].ty]>>
DupEr(ms) == IF \E i, j \in DOMAIN ms : i < j /\ Sig(ms[i]) = Sig(ms[j]) THEN Bad("dup") ELSE {}

Ctx(m, cl) == [cl |-> cl, ctor |-> m.n \in {"Constructor", "Destructor"}, c |-> m.c, st |-> m.st, ret |-> m.ret, th |-> m.th, ps |-> m.ps, body |-> m.body, ab |-> m.ab]

ClassEr(p, c) ==
  LET k == p.classes[c]
  IN (IF k.base # "" /\ ~IsClass(p, k.base) THEN Bad("unknown") ELSE {})
     \union (IF Cyclic(p, c, {}) THEN Bad("unknown") ELSE {})
     \union (IF \E i \in Range(k.ifaces) : ~IsClass(p, i) THEN Bad("unknown") ELSE {})
     \union (IF \E i, j \in DOMAIN k.fs : i < j /\ k.fs[i].n = k.fs[j].n THEN Bad("dup") ELSE {})
     \union (IF \E f \in Range(k.fs) : ~Known(p, f.ty) THEN Bad("unknown") ELSE {})
     \union DupEr(k.ms)
     \union UNION {MethodEr(p, Ctx(k.ms[i], c)) : i \in DOMAIN k.ms}

\* the numbers of an enumeration rise; a value without number is one more than the one before it
EnumEr(es) ==
  LET RECURSIVE f(_, _)
      f(i, last) == IF i > Len(es) THEN {}
                    ELSE LET v == IF es[i].has THEN es[i].v ELSE last + 1
                         IN (IF v <= last THEN Bad("enum") ELSE {}) \union f(i + 1, v)
      dup == IF \E i, j \in DOMAIN es : i < j /\ es[i].n = es[j].n THEN Bad("dup") ELSE {}
  IN f(1, -1) \union dup \union (IF es = <<>> THEN Bad("enum") ELSE {})

Verdict(p) ==
  UNION {ClassEr(p, c) : c \in DOMAIN p.classes}
  \union UNION {MethodEr(p, Ctx(p.funcs[i], "")) : i \in DOMAIN p.funcs}
  \union MethodEr(p, Ctx(p.main, ""))
  \union DupEr(p.funcs)
  \union UNION {EnumEr(p.enumdecl[i]) : i \in DOMAIN p.enumdecl}
  \union (IF \E g \in Range(p.globals) : ~Known(p, g.ty) THEN Bad("unknown") ELSE {})

----------------------------------------------------------------------------------

VARIABLE i

Judge(k) == LET v == Verdict(Cases[k])
                bad == {x[2] : x \in {y \in v : y[1] = "bad"}}
                opn == {x[2] : x \in {y \in v : y[1] = "open"}}
            IN PrintT(<<"STATIC", k, bad, opn>>)

Starts == {k \in 1..Len(Cases) : k % Chunk = 1 \/ Chunk = 1}

Init == i \in Starts
Next == /\ i > 0
        /\ \A k \in i..(IF i + Chunk - 1 <= Len(Cases) THEN i + Chunk - 1 ELSE Len(Cases)) : Judge(k)
        /\ i' = -i

\* the type table is consistent: the result of arithmetic can always be stored where its left operand came from,
\* conversions that are accepted implicitly can also be written as casts, comparison of equal types is symmetric
Table == LET q == [enums |-> [E |-> <<"A">>], classes |-> [C |-> [base |-> ""]]]
             ts == ATOMS \union {"E"}
         IN /\ \A a \in ts, b \in ts, o \in Arith \union {"%", "&", "|"} :
                 AtomBin(q, o, a, b) # "" => Assignable(q, a, AtomBin(q, o, a, b))
            /\ \A a \in ts, b \in ts : (Assignable(q, a, b) /\ a # "E") => Castable(q, a, b)
            /\ \A a \in ts : Assignable(q, a, a)
ASSUME Table
==================================================================================
