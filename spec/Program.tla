------------------------------- MODULE Program -------------------------------
(* A program as the checker sees it: types (a forest), and procs in order of   *)
(* definition, each with its type, name and what its body does.                *)
EXTENDS VCommon

VARIABLE cid

C == Cases[cid]
Types == 1..Len(C.parents)          \* C.parents[t] is the parent of type t, 0 at the top
Procs == 1..Len(C.procs)
P(p) == C.procs[p]
Global == 0

RECURSIVE Under(_, _)
Under(s, t) == s = t \/ (s # 0 /\ C.parents[s] # 0 /\ Under(C.parents[s], t))
Subtypes(t) == {s \in Types : Under(s, t)}

(* The last definition of a proc on a type itself, or 0. *)
Own(t, n) == LET S == {p \in Procs : P(p).ty = t /\ P(p).name = n} IN IF S = {} THEN 0 ELSE CHOOSE p \in S : \A o \in S : o <= p
RECURSIVE Resolve(_, _)
Resolve(t, n) == IF Own(t, n) # 0 \/ t = Global THEN Own(t, n) ELSE Resolve(C.parents[t], n)
(* What ..() runs. *)
Previous(p) ==
  LET S == {o \in Procs : P(o).ty = P(p).ty /\ P(o).name = P(p).name /\ o < p} IN
  IF S # {} THEN CHOOSE o \in S : \A x \in S : x <= o
  ELSE IF P(p).ty = Global THEN 0 ELSE Resolve(C.parents[P(p).ty], P(p).name)

RECURSIVE Chain(_)
Chain(p) == IF p = 0 THEN {} ELSE {p} \cup Chain(Previous(p))

(* An unscoped name that the type writing it does not know is a global proc.   *)
SelfCall(p, n, s) == IF P(p).ty # Global /\ Resolve(P(p).ty, n) # 0 /\ P(Resolve(P(p).ty, n)).ty # Global THEN <<Resolve(s, n), s>> ELSE <<Own(Global, n), Global>>

(* A proc runs on an object of type s when it is the last definition there, or *)
(* the definitions after it pass the call on.                                  *)
RECURSIVE PassedOn(_, _)
PassedOn(o, p) == o = p \/ (o # 0 /\ (\E i \in 1..Len(P(o).ops) : P(o).ops[i].k = "parent" /\ ~P(o).ops[i].spawn) /\ PassedOn(Previous(o), p))
RunsOn(p) == IF P(p).ty = Global THEN {Global} ELSE {t \in Subtypes(P(p).ty) : PassedOn(Resolve(t, P(p).name), p)}
==============================================================================
