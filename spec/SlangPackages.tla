---------------------------- MODULE SlangPackages ----------------------------
(***************************************************************************)
(* The package manager: a library (which module is installed in which      *)
(* version), version restrictions, a cached copy of the index of a remote  *)
(* repository, and the commands that change them.                          *)
(* Modules are numbered in the order of their names, versions in ascending *)
(* order; 0 stands for "none".  A case has a repository (the modules with  *)
(* their dependencies), a start state and a sequence of commands.  When a  *)
(* command does something the rules leave open, the case ends.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Repositories == JsonDeserialize(IOEnv.REPOSITORIES)

VARIABLES ci, pc, inst, min, max, cached, remote, answer
vars == <<ci, pc, inst, min, max, cached, remote, answer>>

C == Cases[ci]
U == Repositories[C.repository]
Mods == 1..U.modules
Op == C.ops[pc + 1]

----------------------------------------------------------------------------
(* The repository. *)

Known(m, v) == v \in 1..Len(U.available[m]) /\ U.available[m][v]
Deps(m, v) == IF Known(m, v) THEN {U.deps[m][v][n] : n \in DOMAIN U.deps[m][v]} ELSE {}
Index(c, m) == IF c = 0 THEN 0 ELSE U.index[c][m]
\* the index a command works with: it is fetched if there is none yet
Fetched == IF cached = 0 THEN remote ELSE cached

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

----------------------------------------------------------------------------
(* What has to be installed: the requested modules and, for every chosen   *)
(* module, the dependencies that the library does not provide in a         *)
(* sufficient version, in the highest version that is asked for.           *)

Asked(c, lib, d) == {IF x.min = 0 THEN Index(Fetched, d) ELSE x.min :
                        x \in {y \in UNION {Deps(m, c[m]) : m \in {k \in Mods : c[k] > 0}} :
                                  y.m = d /\ (lib[d] = 0 \/ lib[d] < y.min) /\ (y.min # 0 \/ c[d] = 0)}}
RECURSIVE Close(_, _)
Close(c, lib) == LET e == [d \in Mods |-> Max({c[d]} \cup Asked(c, lib, d))]
                 IN  IF e = c THEN c ELSE Close(e, lib)

Requested(ps) == {ps[n].m : n \in DOMAIN ps}
Wanted(ps, m) == LET n == CHOOSE k \in DOMAIN ps : ps[k].m = m IN IF ps[n].v = 0 THEN Index(Fetched, m) ELSE ps[n].v
First(ps) == [m \in Mods |-> IF m \in Requested(ps) THEN Wanted(ps, m) ELSE 0]
Chosen(ps, skip, lib) == IF skip THEN First(ps) ELSE Close(First(ps), lib)
Members(c) == {m \in Mods : c[m] > 0}

Allowed(m, v) == (min[m] = 0 \/ v >= min[m]) /\ (max[m] = 0 \/ v <= max[m])

\* an installation is refused as a whole
Complete(ps, c, skip, lib) ==
    /\ \A m \in Requested(ps) : Wanted(ps, m) > 0
    /\ \A m \in Members(c) : Known(m, c[m])
    /\ skip \/ \A m \in Members(c) : \A x \in Deps(m, c[m]) : x.m = 0 \/ c[x.m] > 0 \/ lib[x.m] > 0
    \* module 0 is slang itself: a minimum above 1 is a version that does not exist yet
    /\ skip \/ \A m \in Members(c) : \A x \in Deps(m, c[m]) : x.m # 0 \/ x.min <= 1
    /\ \A m \in Members(c) : U.arch[m] # 2
    /\ \A m \in Members(c) : Allowed(m, c[m])

Forced(ps, force) == force \/ \E n \in DOMAIN ps : ps[n].v > 0
Installed(ps, c, force, lib) == [m \in Mods |-> IF c[m] = 0 \/ (~Forced(ps, force) /\ lib[m] >= c[m]) THEN lib[m] ELSE c[m]]

\* what the rules leave open: two different versions of one module wanted, a command naming a newer version's
\* module, modules of another architecture without their dependencies, a module given twice
OpenInstall(ps, c, skip, lib) ==
    \/ \E m \in Requested(ps) : c[m] # Wanted(ps, m)
    \/ \E m \in Members(c) : \E x \in Deps(m, c[m]) : x.m \in Members(c) /\ c[x.m] < x.min
    \/ \E n \in DOMAIN ps, k \in DOMAIN ps : n # k /\ ps[n].m = ps[k].m
    \/ \E n \in DOMAIN ps : ps[n].v = 0 /\ lib[ps[n].m] > Wanted(ps, ps[n].m)
    \/ skip /\ \E m \in Members(c) : U.arch[m] = 2

Do(ps, skip, force, lib) == LET c == Chosen(ps, skip, lib)
                            IN  IF Complete(ps, c, skip, lib) THEN Installed(ps, c, force, lib) ELSE lib

----------------------------------------------------------------------------
(* upgrade: every outdated module of the selection is installed by itself  *)

Outdated(ps) == {m \in Mods : inst[m] > 0 /\ inst[m] < Index(Fetched, m) /\ (ps = <<>> \/ m \in Requested(ps))}
RECURSIVE Upgraded(_, _)
Upgraded(m, lib) == IF m > U.modules THEN lib
                    ELSE Upgraded(m + 1, IF m \in Outdated(Op.ms) THEN Do(<<[m |-> m, v |-> 0]>>, Op.skip, Op.force, lib) ELSE lib)
RECURSIVE UpgradeOpen(_, _)
UpgradeOpen(m, lib) == IF m > U.modules THEN FALSE
                       ELSE IF m \notin Outdated(Op.ms) THEN UpgradeOpen(m + 1, lib)
                       ELSE LET ps == <<[m |-> m, v |-> 0]>>
                            IN  \/ OpenInstall(ps, Chosen(ps, Op.skip, lib), Op.skip, lib)
                                \/ \E k \in Members(Chosen(ps, Op.skip, lib)) : U.arch[k] = 2       \* whether the other modules are still upgraded
                                \/ UpgradeOpen(m + 1, Do(ps, Op.skip, Op.force, lib))

----------------------------------------------------------------------------
Init == /\ ci \in DOMAIN Cases
        /\ pc = 0
        /\ inst = Cases[ci].start.inst
        /\ min = Cases[ci].start.min
        /\ max = Cases[ci].start.max
        /\ cached = Cases[ci].start.cached
        /\ remote = Cases[ci].start.remote
        /\ answer = "start"

Fetch == cached' = Fetched
Keep == UNCHANGED <<min, max, remote>>

Install == /\ Op.op = "install"
           /\ Fetch
           /\ IF Fetched = 0 THEN inst' = inst /\ answer' = "refused"
              ELSE /\ inst' = Do(Op.ms, Op.skip, Op.force, inst)
                   /\ answer' = IF OpenInstall(Op.ms, Chosen(Op.ms, Op.skip, inst), Op.skip, inst) THEN "open"
                                ELSE IF Complete(Op.ms, Chosen(Op.ms, Op.skip, inst), Op.skip, inst) THEN "done" ELSE "refused"
           /\ Keep

Upgrade == /\ Op.op = "upgrade"
           /\ Fetch
           /\ IF Fetched = 0 THEN inst' = inst /\ answer' = "refused"
              ELSE inst' = Upgraded(1, inst) /\ answer' = IF UpgradeOpen(1, inst) THEN "open" ELSE "done"
           /\ Keep

Remove == /\ Op.op \in {"remove", "purge"}
          /\ inst' = [m \in Mods |-> IF m \in Requested(Op.ms) THEN 0 ELSE inst[m]]
          /\ min' = [m \in Mods |-> IF m \in Requested(Op.ms) /\ Op.op = "purge" THEN 0 ELSE min[m]]
          /\ max' = [m \in Mods |-> IF m \in Requested(Op.ms) /\ Op.op = "purge" THEN 0 ELSE max[m]]
          /\ answer' = "done"
          /\ UNCHANGED <<cached, remote>>

Restrict == /\ Op.op = "restrict"
            /\ min' = [min EXCEPT ![Op.ms[1].m] = Op.min]
            /\ max' = [max EXCEPT ![Op.ms[1].m] = Op.max]
            /\ answer' = "done"
            /\ UNCHANGED <<inst, cached, remote>>

Update == /\ Op.op = "update"
          /\ cached' = IF remote = 0 THEN cached ELSE remote
          /\ answer' = IF remote = 0 THEN "refused" ELSE "done"
          /\ UNCHANGED <<inst, min, max, remote>>

Look == Op.op \in {"list", "search"} /\ answer' = "done" /\ UNCHANGED <<inst, min, max, cached, remote>>

\* the repository gets another index or becomes unreachable
Publish == Op.op = "publish" /\ remote' = Op.min /\ answer' = "done" /\ UNCHANGED <<inst, min, max, cached>>

Next == /\ pc < Len(C.ops) /\ answer # "open"
        /\ pc' = pc + 1 /\ UNCHANGED ci
        /\ Install \/ Upgrade \/ Remove \/ Restrict \/ Update \/ Look \/ Publish
        /\ PrintT(<<"S", ci, pc', answer', inst', min', max', cached'>>)

----------------------------------------------------------------------------
(* Properties *)

TypeOK == \A m \in Mods : inst[m] \in 0..Len(U.available[m])

Changed(m) == inst'[m] # inst[m]
\* nothing is installed against a restriction, and nothing that the repository does not have
Restricted == [][\A m \in Mods : Changed(m) /\ inst'[m] > 0 => Allowed(m, inst'[m]) /\ Known(m, inst'[m])]_vars
\* a module is only installed together with its dependencies
WithDependencies == [][(answer' \notin {"open", "start"} /\ Op.op \in {"install", "upgrade"} /\ ~Op.skip) =>
                         \A m \in Mods : Changed(m) => \A x \in Deps(m, inst'[m]) : x.m = 0 \/ (inst'[x.m] > 0 /\ inst'[x.m] >= x.min)]_vars
\* requested modules are there after a successful installation
Fulfils == [][(answer' = "done" /\ Op.op = "install") => \A m \in Requested(Op.ms) : inst'[m] > 0]_vars
\* a refused command changes nothing
Refuses == [][answer' = "refused" => inst' = inst /\ min' = min /\ max' = max]_vars
\* only an installation of a named version makes a module older
NoDowngrade == [][(answer' # "open" /\ ((Op.op = "upgrade" /\ ~Op.force) \/ (Op.op = "install" /\ ~Forced(Op.ms, Op.force)))) => \A m \in Mods : inst'[m] >= inst[m]]_vars
=============================================================================
