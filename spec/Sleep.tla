-------------------------------- MODULE Sleep --------------------------------
(* The promise not to sleep.  A case is a program: types (a forest), and procs *)
(* in order of definition, each with its marks and the calls its body makes.   *)
(*                                                                             *)
(* Two machines walk the same program from every marked proc.  The exact one   *)
(* follows what can happen: an object of some one type, every call dispatched  *)
(* on it.  The coarse one follows what a checker which only knows a bound on   *)
(* the type of the object may assume.  A diagnosis must cover the first and    *)
(* stay within the second.                                                     *)
EXTENDS Program

VARIABLES status, real, bound
vars == <<cid, status, real, bound>>

Marked(p) == \E o \in Chain(p) : P(o).mark
Blocks(p) == \E i \in 1..Len(P(p).ops) : P(p).ops[i].k = "block" /\ ~P(p).ops[i].spawn
(* Whether the release from waiting is inherited is not said, so an override   *)
(* of a released proc is released for the one machine and not for the other.   *)
Free(p) == P(p).free
MayBeFree(p) == \E o \in Chain(p) : P(o).free

Calls(p) == {P(p).ops[i] : i \in {j \in 1..Len(P(p).ops) : P(p).ops[j].k # "block" /\ ~P(p).ops[j].spawn}}

------------------------------------------------------------------------------
(* What can happen: nodes <<proc, type of src>>.                              *)
RealNext(p, s, o) ==
  CASE o.k \in {"self", "src"} -> {SelfCall(p, o.name, s)}
    [] o.k = "on" -> {<<Resolve(t, o.name), t>> : t \in Subtypes(o.ty)}
    [] o.k = "new" -> {<<Resolve(o.ty, "New"), o.ty>>}
    [] o.k = "parent" -> {<<Previous(p), s>>}
    [] o.k = "again" -> {<<p, s>>}
    [] o.k = "global" -> {<<Own(Global, o.name), Global>>}
(* Marked procs answer for themselves; a proc that blocks is blamed at once,   *)
(* and nothing need be said of its overrides before it is mended.             *)
Hidden(p) == \E o \in Chain(p) \ {p} : Blocks(o)
RealFrom(p, s) == {n \in UNION {RealNext(p, s, o) : o \in Calls(p)} : n[1] # 0 /\ ~Hidden(n[1])}
RealStep(r) == LET next == UNION {IF n[1] # r.root /\ (Marked(n[1]) \/ MayBeFree(n[1]) \/ Blocks(n[1])) THEN {} ELSE RealFrom(n[1], n[2]) : n \in r.todo} IN
  [r EXCEPT !.seen = @ \cup r.todo, !.todo = next \ (r.seen \cup r.todo)]

------------------------------------------------------------------------------
(* What may be assumed: nodes <<proc, bound of src, final>>; final nodes were  *)
(* dispatched already.                                                         *)
BoundNext(p, b, o) ==
  CASE o.k = "self" -> LET n == SelfCall(p, o.name, b) IN {<<n[1], n[2], FALSE>>}
    [] o.k = "src" -> LET n == SelfCall(p, o.name, P(p).ty) IN {<<n[1], n[2], FALSE>>}
    [] o.k = "on" -> {<<Resolve(o.ty, o.name), o.ty, FALSE>>}
    [] o.k = "new" -> {<<Resolve(o.ty, "New"), o.ty, TRUE>>}
    [] o.k = "parent" -> {<<Previous(p), b, TRUE>>}
    [] o.k = "again" -> {<<p, b, TRUE>>}
    [] o.k = "global" -> {<<Own(Global, o.name), Global, TRUE>>}
Dispatched(n) ==
  IF n[3] \/ n[1] = 0 \/ P(n[1]).ty = Global THEN {}
  ELSE {<<Own(t, P(n[1]).name), t, TRUE>> : t \in {u \in Subtypes(n[2]) : Own(u, P(n[1]).name) # 0}}
BoundFrom(p, b) == {n \in UNION {BoundNext(p, b, o) : o \in Calls(p)} : n[1] # 0}
BoundStep(r) == LET next == UNION {IF n[1] # r.root /\ (Marked(n[1]) \/ Free(n[1])) THEN {}
                                   ELSE (IF n[1] # r.root /\ Blocks(n[1]) THEN {} ELSE BoundFrom(n[1], n[2])) \cup Dispatched(n) : n \in r.todo} IN
  [r EXCEPT !.seen = @ \cup r.todo, !.todo = next \ (r.seen \cup r.todo)]

------------------------------------------------------------------------------
Roots == {p \in Procs : Marked(p)}
Init ==
  /\ cid \in 1..Len(Cases) /\ status = "walk"
  /\ real = {[root |-> p, seen |-> {}, todo |-> {<<p, t>> : t \in RunsOn(p)}] : p \in {q \in Roots : ~MayBeFree(q)}}
  /\ bound = {[root |-> p, seen |-> {}, todo |-> {<<p, P(p).ty, TRUE>>}] : p \in Roots}

Step ==
  /\ status = "walk" /\ \E r \in real \cup bound : r.todo # {}
  /\ real' = {RealStep(r) : r \in real} /\ bound' = {BoundStep(r) : r \in bound}
  /\ UNCHANGED <<cid, status>>

(* Pairs <<marked proc, proc it blames>>. *)
Must == UNION {{<<r.root, n[1]>> : n \in {m \in r.seen : Blocks(m[1]) /\ (m[1] = r.root \/ ~(Marked(m[1]) \/ MayBeFree(m[1])))}} : r \in real}
May == UNION {{<<r.root, n[1]>> : n \in {m \in r.seen : Blocks(m[1]) /\ (m[1] = r.root \/ ~(Marked(m[1]) \/ Free(m[1])))}} : r \in bound}

Report ==
  /\ status = "walk" /\ \A r \in real \cup bound : r.todo = {}
  /\ Emit([cid |-> cid, must |-> Must, may |-> May]) /\ status' = "done" /\ UNCHANGED <<cid, real, bound>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* What can happen is never outside what may be assumed. *)
Inv == status = "done" => Must \subseteq May
==============================================================================
