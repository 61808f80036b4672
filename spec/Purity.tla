-------------------------------- MODULE Purity --------------------------------
(* The promise to be pure: a proc so marked (or overriding one) has no side    *)
(* effect, nor has anything it runs, and its result is what it is called for.  *)
(*                                                                             *)
(* As for sleeping, the exact machine follows an object of one type, and the   *)
(* coarse one what a checker knows who has only bounds on types.  The exact    *)
(* one carries that bound along too, since nothing is promised about what an   *)
(* override calls in turn: it stops where the call goes to an override the     *)
(* bound does not show, and only the override's own effects count there.       *)
EXTENDS Program

VARIABLES status, real, bound
vars == <<cid, status, real, bound>>

Marked(p) == \E o \in Chain(p) : P(o).mark

(* What is done to what: variables of the object and globals outlive the call, *)
(* locals do not, and a local of the same name hides a variable.               *)
Lasting == {"var", "mobvar", "gvar", "global", "srcvar", "varfield"}
Heard == {"mob", "submob", "savefile", "mobvar", "list"}
Effect(o) ==
  CASE o.k # "do" -> "none"
    [] o.what \in {"assign", "step", "loop"} -> IF o.on \in Lasting THEN "sure" ELSE IF o.on \in {"local", "copy", "shadow", "result"} THEN "none" ELSE "open"
    [] o.what = "output" -> IF o.on \in Heard \cup {"world"} THEN "sure" ELSE IF o.on \in {"local", "shadow"} THEN "none" ELSE "open"
    [] o.what = "shift" -> IF o.on \in Heard THEN "sure" ELSE "none"
    [] o.what = "read" -> "none"
Ops(p) == {P(p).ops[i] : i \in 1..Len(P(p).ops)}
Impure(p) == \E o \in Ops(p) : Effect(o) = "sure"
MayImpure(p) == \E o \in Ops(p) : Effect(o) # "none"
Calls(p) == {o \in Ops(p) : o.k # "do"}

------------------------------------------------------------------------------
(* Steps of the exact machine: <<proc the bound shows, proc which runs, type   *)
(* of src, bound>>.                                                            *)
Shown(p, o, s, b) ==
  CASE o.k = "self" -> LET q == SelfCall(p, o.name, s) IN {<<SelfCall(p, o.name, b)[1], q[1], q[2], IF q[2] = Global THEN Global ELSE b>>}
    [] o.k = "src" -> {<<Resolve(P(p).ty, o.name), Resolve(s, o.name), s, P(p).ty>>}
    [] o.k = "on" -> {<<Resolve(o.ty, o.name), Resolve(t, o.name), t, o.ty>> : t \in Subtypes(o.ty)}
    [] o.k = "new" -> LET q == Resolve(o.ty, "New") IN {<<q, q, o.ty, o.ty>>}
    [] o.k = "parent" -> {<<Previous(p), Previous(p), s, b>>}
    [] o.k = "again" -> {<<p, p, s, b>>}
    [] o.k = "global" -> {<<Own(Global, o.name), Own(Global, o.name), Global, Global>>}
Leads(n) == {m \in UNION {Shown(n[2], o, n[3], n[4]) : o \in Calls(n[2])} : m[1] # 0}
RealStep(r) == LET next == UNION {IF n[1] = n[2] THEN Leads(n) ELSE {} : n \in r.todo} IN
  [r EXCEPT !.seen = @ \cup r.todo, !.todo = next \ (r.seen \cup r.todo)]

(* Nodes of the coarse machine: <<proc, bound>>. *)
BoundNext(p, b, o) ==
  CASE o.k = "self" -> {SelfCall(p, o.name, b)}
    [] o.k = "src" -> {SelfCall(p, o.name, P(p).ty)}
    [] o.k = "on" -> {<<Resolve(o.ty, o.name), o.ty>>}
    [] o.k = "new" -> {<<Resolve(o.ty, "New"), o.ty>>}
    [] o.k = "parent" -> {<<Previous(p), b>>}
    [] o.k = "again" -> {<<p, b>>}
    [] o.k = "global" -> {<<Own(Global, o.name), Global>>}
Overrides(n) == IF P(n[1]).ty = Global THEN {} ELSE {<<o, P(o).ty>> : o \in {q \in Procs : P(q).ty # Global /\ P(q).name = P(n[1]).name /\ Under(P(q).ty, n[2])}}
BoundStep(r) == LET next == UNION {Overrides(n) \cup {m \in UNION {BoundNext(n[1], n[2], o) : o \in Calls(n[1])} : m[1] # 0} : n \in r.todo} IN
  [r EXCEPT !.seen = @ \cup r.todo, !.todo = next \ (r.seen \cup r.todo)]

------------------------------------------------------------------------------
Roots == {p \in Procs : Marked(p)}
Init ==
  /\ cid \in 1..Len(Cases) /\ status = "walk"
  /\ real = {[root |-> p, seen |-> {}, todo |-> {<<p, p, t, P(p).ty>> : t \in RunsOn(p)}] : p \in Roots}
  /\ bound = {[root |-> p, seen |-> {}, todo |-> UNION {BoundNext(p, P(p).ty, o) : o \in Calls(p)} \ {<<0, t>> : t \in 0..Len(C.parents)}] : p \in Roots}

Step ==
  /\ status = "walk" /\ \E r \in real \cup bound : r.todo # {}
  /\ real' = {RealStep(r) : r \in real} /\ bound' = {BoundStep(r) : r \in bound}
  /\ UNCHANGED <<cid, status>>

(* Pairs <<marked proc, proc with the effect>>.  Where the bound shows an      *)
(* impure proc, that one may be blamed in place of its overrides.              *)
Must == UNION {{<<r.root, r.root>> : x \in {q \in {r.root} : Impure(q)}} \cup {<<r.root, n[2]>> : n \in {m \in r.seen : Impure(m[2]) /\ (m[1] = m[2] \/ ~MayImpure(m[1]))}} : r \in real}
Broken == {r.root : r \in {x \in real : Impure(x.root) \/ \E n \in x.seen : Impure(n[2])}}
May == UNION {{<<r.root, r.root>> : x \in {q \in {r.root} : MayImpure(q)}} \cup {<<r.root, n[1]>> : n \in {m \in r.seen : MayImpure(m[1])}} : r \in bound}

(* The marked procs whose result a statement drops: <<proc, operation>>. *)
Dropped == {<<p, i>> \in {<<q, j>> \in Procs \X (1..20) : j <= Len(P(q).ops)} :
  LET o == P(p).ops[i] IN o.drop /\ o.k = "self" /\ LET q == SelfCall(p, o.name, P(p).ty)[1] IN q # 0 /\ Marked(q)}

Report ==
  /\ status = "walk" /\ \A r \in real \cup bound : r.todo = {}
  /\ Emit([cid |-> cid, must |-> Must, may |-> May, broken |-> Broken, dropped |-> Dropped]) /\ status' = "done" /\ UNCHANGED <<cid, real, bound>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* What can happen is never outside what may be assumed. *)
Inv == status = "done" => Must \subseteq May /\ \A p \in Broken : \E m \in May : m[1] = p
==============================================================================
