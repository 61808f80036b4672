------------------------------ MODULE Contracts ------------------------------
(* What a proc demands of its overrides and callers.  A case is a program, its *)
(* procs with the settings their bodies start with, in order.  First every     *)
(* setting takes effect or is refused, then every proc and call is judged.     *)
EXTENDS Program

VARIABLES status, at, effect, said, open
vars == <<cid, status, at, effect, said, open>>

(* Whether a setting may be turned off, may be on any definition or only on    *)
(* the first, may be on a global proc.                                         *)
Rule == [call_parent     |-> [off |-> TRUE,  anywhere |-> TRUE,  global |-> FALSE],
         not_call_parent |-> [off |-> TRUE,  anywhere |-> TRUE,  global |-> FALSE],
         not_override    |-> [off |-> FALSE, anywhere |-> TRUE,  global |-> FALSE],
         private         |-> [off |-> FALSE, anywhere |-> FALSE, global |-> FALSE],
         protected       |-> [off |-> FALSE, anywhere |-> FALSE, global |-> FALSE],
         not_sleep       |-> [off |-> FALSE, anywhere |-> FALSE, global |-> TRUE],
         redefined       |-> [off |-> FALSE, anywhere |-> TRUE,  global |-> FALSE]]
Names == DOMAIN Rule

(* The same proc on the same type is also a definition of it. *)
Siblings(p) == {o \in Procs : P(o).ty = P(p).ty /\ P(o).name = P(p).name}
First(p) == \A o \in Siblings(p) : p <= o
Introduces(p) == P(p).decl \/ (P(p).ty = Global /\ First(p))

Final(p) == \E o \in Siblings(p) : P(o).final
Start == [p \in Procs |-> [n \in Names |-> IF n = "not_override" /\ Final(p) /\ P(p).ty # Global THEN "yes" ELSE "unset"]]

(* Why a setting is refused, or "" if it takes effect. *)
Refused(p, s) ==
  IF s.name \notin Names THEN "unknown"
  ELSE IF ~Rule[s.name].anywhere /\ ~Introduces(p) THEN "late"
  ELSE IF s.value = "bad" THEN "value"
  ELSE IF P(p).ty = Global /\ ~Rule[s.name].global THEN "global"
  ELSE IF s.value = "no" /\ ~Rule[s.name].off THEN "off"
  ELSE IF effect[p][s.name] # "unset" THEN "twice"
  ELSE ""

Init ==
  /\ cid \in 1..Len(Cases) /\ status = "settings" /\ at = <<1, 1>>
  /\ effect = Start /\ open = {}
  /\ said = {<<p, 0, "global">> : p \in {q \in Procs : P(q).ty = Global /\ Final(q)}}

Apply ==
  /\ status = "settings" /\ at[1] \in Procs /\ at[2] <= Len(P(at[1]).sets)
  /\ LET p == at[1] s == P(p).sets[at[2]] why == Refused(p, s) IN
     /\ effect' = IF why = "" THEN [effect EXCEPT ![p][s.name] = s.value] ELSE effect
     /\ said' = IF why = "" THEN said ELSE said \cup {<<p, at[2], why>>}
  /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED <<cid, status, open>>

NextProc ==
  /\ at[1] \in Procs
  /\ \/ status = "settings" /\ at[2] > Len(P(at[1]).sets)
     \/ status = "judge" /\ at[2] > Len(P(at[1]).ops)
  /\ at' = <<at[1] + 1, IF status = "judge" THEN 0 ELSE 1>> /\ UNCHANGED <<cid, status, effect, said, open>>
Settled == status = "settings" /\ at[1] \notin Procs /\ status' = "judge" /\ at' = <<1, 0>> /\ UNCHANGED <<cid, effect, said, open>>

------------------------------------------------------------------------------
(* The nearest definition, going up, which has the setting at all; or 0. *)
RECURSIVE Nearest(_, _)
Nearest(p, n) == IF p = 0 \/ effect[p][n] # "unset" THEN p ELSE Nearest(Previous(p), n)
(* The proc whose demand binds p, or 0. *)
Binding(p, n) == LET q == Nearest(p, n) IN IF q # 0 /\ effect[q][n] = "yes" THEN q ELSE 0

CallsParent(p) == \E i \in 1..Len(P(p).ops) : P(p).ops[i].k = "parent"
SameType(p) == Previous(p) # 0 /\ P(Previous(p)).ty = P(p).ty

(* Rules stated for descendant types are open for another definition on the    *)
(* very same type, and demands on overrides for the proc which makes them.     *)
JudgeProc(p) ==
  [said |->
     (IF Binding(p, "private") \notin {0, p} THEN {"private"} ELSE {}) \cup
     (IF Binding(p, "not_override") \notin {0, p} THEN {"not_override"} ELSE {}) \cup
     (IF CallsParent(p) /\ Previous(p) # 0 /\ effect[Previous(p)]["not_call_parent"] = "yes" /\ effect[p]["not_call_parent"] # "no" THEN {"not_call_parent"} ELSE {}) \cup
     (IF ~CallsParent(p) /\ Binding(p, "call_parent") # 0 /\ (Previous(p) # 0 \/ P(p).name = "New") THEN {"call_parent"} ELSE {}) \cup
     (IF SameType(p) /\ Nearest(p, "redefined") = 0 THEN {"redefined"} ELSE {}),
   open |->
     (IF SameType(p) THEN {"private", "not_override"} ELSE {}) \cup
     (IF Binding(p, "call_parent") = p THEN {"call_parent"} ELSE {})]

(* The definition a call goes to as the code shows, and the type it is made on. *)
Goes(p, o) ==
  CASE o.k \in {"self", "src"} -> SelfCall(p, o.name, P(p).ty)
    [] o.k = "on" -> <<Resolve(o.ty, o.name), o.ty>>
    [] o.k = "parent" -> <<Previous(p), P(p).ty>>
    [] o.k = "again" -> <<p, P(p).ty>>
    [] o.k = "global" -> <<Own(Global, o.name), Global>>
JudgeCall(p, o) ==
  LET g == Goes(p, o)
      pr == IF g[1] = 0 THEN 0 ELSE Binding(g[1], "private")
      pt == IF g[1] = 0 THEN 0 ELSE Binding(g[1], "protected")
      hidden == pr # 0 /\ P(pr).ty # P(p).ty IN
  [said |-> (IF hidden THEN {"private"} ELSE {}) \cup (IF pt # 0 /\ ~Under(P(p).ty, P(pt).ty) THEN {"protected"} ELSE {}),
   open |-> (IF pr # 0 /\ (g[2] # P(pr).ty \/ o.k = "again") THEN {"private"} \ (IF hidden /\ o.k # "again" THEN {"private"} ELSE {}) ELSE {}) \cup (IF pr # 0 THEN {"protected"} ELSE {})]

Judge ==
  /\ status = "judge" /\ at[1] \in Procs /\ at[2] <= Len(P(at[1]).ops)
  /\ LET p == at[1] j == IF at[2] = 0 THEN JudgeProc(p) ELSE JudgeCall(p, P(p).ops[at[2]])
         i == IF at[2] = 0 THEN 0 ELSE 100 + at[2] IN
     /\ open' = open \cup {<<p, i, d>> : d \in j.open}
     /\ said' = said \cup {<<p, i, d>> : d \in j.said}
  /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED <<cid, status, effect>>

Report ==
  /\ status = "judge" /\ at[1] \notin Procs
  /\ Emit([cid |-> cid, said |-> said, open |-> open]) /\ status' = "done" /\ UNCHANGED <<cid, at, effect, said, open>>

Next == Apply \/ NextProc \/ Settled \/ Judge \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* A demand which cannot be turned off binds every proc below the one making it. *)
Inv == status = "done" => \A p \in Procs : \A n \in Names : ~Rule[n].off =>
  (Binding(p, n) # 0 <=> \E o \in Chain(p) : effect[o][n] = "yes")
==============================================================================
