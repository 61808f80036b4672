-------------------------------- MODULE Flow --------------------------------
(* Where control can get to in a proc's body.  A case is a body, flattened:    *)
(* stmts[s] = [k, blocks, conds, up], blocks[b] = [body, of], where body is a  *)
(* sequence of statements, of the statement a block belongs to (0 for the      *)
(* whole body), and up how many loops a break or continue leaves.              *)
(*                                                                             *)
(* The machine runs the code in all ways at once, from the start of each block *)
(* on its own: conditions that are not constant go either way, loops run any   *)
(* number of times.                                                            *)
EXTENDS VCommon

VARIABLES cid, status, reach, todo
vars == <<cid, status, reach, todo>>

C == Cases[cid]
S(s) == C.stmts[s]
B(b) == C.blocks[b]
Blocks == 1..Len(C.blocks)
Stmts == 1..Len(C.stmts)
Loops == {"while", "do", "for", "list", "once", "forever"}
Exits == {"return", "crash", "throw"}

(* The block a statement stands in, and where. *)
In(s) == CHOOSE b \in Blocks : Has(B(b).body, s)
At(s) == CHOOSE i \in 1..Len(B(In(s)).body) : B(In(s)).body[i] = s

(* Configurations: <<block started from, block, position>>. *)
After(b0, s) == <<b0, In(s), At(s) + 1>>
Into(b0, b) == <<b0, b, 1>>

(* The loop which a break leaves, within what was started; 0 if outside. *)
RECURSIVE Leave(_, _, _)
Leave(b0, b, n) ==
  IF b = b0 \/ B(b).of = 0 THEN 0
  ELSE LET s == B(b).of IN
    IF S(s).k \notin Loops THEN Leave(b0, In(s), n) ELSE IF n = 1 THEN s ELSE Leave(b0, In(s), n - 1)

Again(b0, l) ==
  (IF S(l).conds[1] = "false" /\ S(l).k # "once" THEN {} ELSE {Into(b0, S(l).blocks[1])}) \cup
  (IF S(l).k = "forever" \/ (S(l).k # "once" /\ S(l).conds[1] = "true") THEN {} ELSE {After(b0, l)})

(* Alternatives are tried in turn; a constant decides. *)
Taken(s) == {i \in 1..Len(S(s).blocks) : S(s).conds[i] # "false" /\ \A j \in 1..i - 1 : S(s).conds[j] # "true"}
Exhaustive(s) == \E i \in 1..Len(S(s).conds) : S(s).conds[i] \in {"true", "else"}

Run(b0, b, s) ==
  CASE S(s).k \in {"plain", "set"} -> {After(b0, s)}
    [] S(s).k \in {"return", "crash"} -> {}
    [] S(s).k = "throw" -> {}
    [] S(s).k = "break" -> LET l == Leave(b0, b, S(s).up) IN IF l = 0 THEN {} ELSE {After(b0, l)}
    [] S(s).k = "continue" -> LET l == Leave(b0, b, S(s).up) IN IF l = 0 THEN {} ELSE Again(b0, l)
    [] S(s).k \in {"if", "switch"} -> {Into(b0, S(s).blocks[i]) : i \in Taken(s)} \cup (IF Exhaustive(s) THEN {} ELSE {After(b0, s)})
    [] S(s).k \in {"while", "for", "list"} -> Again(b0, s)
    [] S(s).k \in {"do", "once", "forever", "label"} -> {Into(b0, S(s).blocks[1])}
    [] S(s).k = "spawn" -> {Into(b0, S(s).blocks[1]), After(b0, s)}
    [] S(s).k = "try" -> {Into(b0, S(s).blocks[1]), Into(b0, S(s).blocks[2])}
FallOff(b0, b) ==
  IF b = b0 \/ B(b).of = 0 THEN {}
  ELSE LET s == B(b).of IN
    IF S(s).k \in Loops THEN Again(b0, s) ELSE IF S(s).k = "spawn" THEN {} ELSE {After(b0, s)}
Successors(n) == IF n[3] > Len(B(n[2]).body) THEN FallOff(n[1], n[2]) ELSE Run(n[1], n[2], B(n[2]).body[n[3]])

Init == cid \in 1..Len(Cases) /\ status = "run" /\ reach = {} /\ todo = {Into(b, b) : b \in Blocks}
Step ==
  /\ status = "run" /\ todo # {}
  /\ LET next == UNION {Successors(n) : n \in todo} IN
     /\ reach' = reach \cup todo
     /\ todo' = next \ (reach \cup todo)
  /\ UNCHANGED <<cid, status>>

------------------------------------------------------------------------------
(* What is dead: statements nobody gets to from the start of their block. *)
Dead == {s \in Stmts : <<In(s), In(s), At(s)>> \notin reach}
(* Do loops whose condition is never evaluated: the body neither ends nor      *)
(* continues, from its start.                                                  *)
RECURSIVE Depth(_, _)
Depth(b0, b) == IF b = b0 THEN 0 ELSE Depth(b0, In(B(b).of)) + (IF S(B(b).of).k \in Loops THEN 1 ELSE 0)
At3(n) == IF n[3] > Len(B(n[2]).body) THEN 0 ELSE B(n[2]).body[n[3]]
Continues(b) == \E n \in reach : n[1] = b /\ At3(n) # 0 /\ S(At3(n)).k = "continue" /\ S(At3(n)).up = Depth(b, n[2]) + 1
NoTest == {s \in Stmts : S(s).k = "do" /\ LET b == S(s).blocks[1] IN <<b, b, Len(B(b).body) + 1>> \notin reach /\ ~Continues(b)}
(* Alternatives after one whose condition is constantly true. *)
Shadowed == {<<s, i>> \in {<<t, j>> \in Stmts \X (1..4) : j <= Len(S(t).blocks)} : S(s).k = "if" /\ \E j \in 1..i - 1 : S(s).conds[j] = "true"}
Constant == {<<s, i>> \in {<<t, j>> \in Stmts \X (1..4) : j <= Len(S(t).blocks)} : S(s).k = "if" /\ S(s).conds[i] \in {"true", "false"}}
Tests == {s \in Stmts : S(s).k = "for" /\ S(s).conds[1] \in {"true", "false"}}

(* What must be recognised: exits, and alternatives which are all sure to      *)
(* exit in the same way.  Nothing is promised after a statement with a break   *)
(* or continue in it which leaves the block, unless it exits that way itself.  *)
RECURSIVE Loose(_, _)
Loose(s, n) == (S(s).k \in {"break", "continue"} /\ S(s).up > n) \/ \E j \in 1..Len(S(s).blocks) : \E i \in 1..Len(B(S(s).blocks[j]).body) :
  Loose(B(S(s).blocks[j]).body[i], IF S(s).k \in Loops THEN n + 1 ELSE n)
Ways == {"return", "break", "continue"}
RECURSIVE Sure(_, _)
SureUpTo(b, i, w) == \E k \in 1..i : Sure(B(b).body[k], w) /\ \A j \in 1..k - 1 : ~Loose(B(b).body[j], 0)
Sure(s, w) ==
  \/ w = "return" /\ S(s).k \in {"return", "crash"}
  \/ w = S(s).k /\ w \in {"break", "continue"} /\ S(s).up = 1
  \/ S(s).k \in {"if", "switch"} /\ Has(S(s).conds, "else") /\ \A j \in 1..Len(S(s).blocks) : SureUpTo(S(s).blocks[j], Len(B(S(s).blocks[j]).body), w)
  \/ w = "return" /\ S(s).k = "do" /\ SureUpTo(S(s).blocks[1], Len(B(S(s).blocks[1]).body), w)
SureEnd(b) == SureUpTo(b, Len(B(b).body), "return")
(* A break or continue itself is no reason to report what follows it. *)
Gone(b, i) == \E w \in Ways : \E k \in 1..i : S(B(b).body[k]).k \notin {"break", "continue"} /\ Sure(B(b).body[k], w) /\ \A j \in 1..k - 1 : ~Loose(B(b).body[j], 0)
(* Code after the statement reported in a block need not be looked at. *)
Reported(s) == Gone(In(s), At(s) - 1) /\ ~Gone(In(s), At(s) - 2)
RECURSIVE Skipped(_)
Skipped(s) == s # 0 /\ ((\E d \in Dead : In(d) = In(s) /\ At(d) <= At(s)) \/ Skipped(B(In(s)).of))
Must == {s \in Stmts : Reported(s) /\ (~\E d \in Dead : In(d) = In(s) /\ At(d) < At(s)) /\ ~Skipped(B(In(s)).of)}
MustNoTest == {s \in Stmts : S(s).k = "do" /\ SureEnd(S(s).blocks[1]) /\ ~Skipped(s)}

Report ==
  /\ status = "run" /\ todo = {}
  /\ Emit([cid |-> cid, must |-> Must, may |-> Dead, notest |-> NoTest, mustnotest |-> MustNoTest, shadowed |-> Shadowed, constant |-> Constant, tests |-> Tests,
           skipped |-> {s \in Stmts : Skipped(s)}])
  /\ status' = "done" /\ UNCHANGED <<cid, reach, todo>>

Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* What must be recognised as dead really is. *)
Inv == status = "done" => (\A b \in Blocks : \A i \in 1..Len(B(b).body) : Gone(b, i - 1) => B(b).body[i] \in Dead) /\ MustNoTest \subseteq NoTest
==============================================================================
