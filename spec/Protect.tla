------------------------------- MODULE Protect -------------------------------
(* Final, private and protected variables.  A case is a program:               *)
(*   parents  the types, as in Program                                         *)
(*   defs     in order, [ty, name, decl, flags]: a variable declared (with or  *)
(*            without a value) or only given a value                           *)
(*   procs    [ty, ops], each op [k, ty, name]: a variable used through an     *)
(*            object of type ty, or in a way that is not checked (by its name  *)
(*            alone or through an operator with a colon)                       *)
(* The definitions take effect, then every type which gives a variable a value *)
(* is compared with its ancestors one generation at a time, then every use is  *)
(* judged.                                                                     *)
EXTENDS Program

VARIABLES status, at, decl, given, said
vars == <<cid, status, at, decl, given, said>>

Names == {C.defs[i].name : i \in 1..Len(C.defs)}
None == [is |-> FALSE, flags |-> <<>>]

Init ==
  /\ cid \in 1..Len(Cases) /\ status = "define" /\ at = <<1, 0>> /\ said = {}
  /\ decl = [t \in Types |-> [n \in Names |-> None]]
  /\ given = [t \in Types |-> [n \in Names |-> FALSE]]

Define ==
  /\ status = "define" /\ at[1] <= Len(C.defs)
  /\ LET d == C.defs[at[1]] IN
     /\ decl' = IF d.decl THEN [decl EXCEPT ![d.ty][d.name] = [is |-> TRUE, flags |-> d.flags]] ELSE decl
     /\ given' = [given EXCEPT ![d.ty][d.name] = TRUE]
  /\ at' = <<at[1] + 1, 0>> /\ UNCHANGED <<cid, status, said>>
Defined == status = "define" /\ at[1] > Len(C.defs) /\ status' = "compare" /\ at' = <<1, C.parents[1]>> /\ UNCHANGED <<cid, decl, given, said>>

(* What is wrong with t's variable n in view of what its ancestor a declares. *)
Clash(t, a, n) ==
  IF ~given[t][n] \/ ~decl[a][n].is THEN {}
  ELSE (IF decl[t][n].is THEN {"redeclared"} ELSE {})
       \cup (IF Has(decl[a][n].flags, "final") THEN {"final"} ELSE {})
       \cup (IF Has(decl[a][n].flags, "private") THEN {"private"} ELSE {})
Compare ==
  /\ status = "compare" /\ at[1] \in Types /\ at[2] # 0
  /\ said' = said \cup UNION {{<<"type", at[1], n, at[2], w>> : w \in Clash(at[1], at[2], n)} : n \in Names}
  /\ at' = <<at[1], C.parents[at[2]]>> /\ UNCHANGED <<cid, status, decl, given>>
NextType == status = "compare" /\ at[1] \in Types /\ at[2] = 0 /\ at' = <<at[1] + 1, IF at[1] + 1 \in Types THEN C.parents[at[1] + 1] ELSE 0>> /\ UNCHANGED <<cid, status, decl, given, said>>
Compared == status = "compare" /\ at[1] \notin Types /\ status' = "judge" /\ at' = <<1, 1>> /\ UNCHANGED <<cid, decl, given, said>>

(* The nearest type, going up, which declares the variable. *)
RECURSIVE Declaring(_, _)
Declaring(t, n) == IF t = 0 \/ decl[t][n].is THEN t ELSE Declaring(C.parents[t], n)
Judge ==
  /\ status = "judge" /\ at[1] \in Procs /\ at[2] <= Len(P(at[1]).ops)
  /\ LET u == P(at[1]).ty o == P(at[1]).ops[at[2]] d == Declaring(o.ty, o.name)
         w == IF d = 0 THEN ""
              ELSE IF Has(decl[d][o.name].flags, "private") /\ u # d THEN "private"
              ELSE IF Has(decl[d][o.name].flags, "protected") /\ ~Under(u, d) THEN "protected" ELSE "" IN
     said' = said \cup (IF w = "" THEN {} ELSE {<<IF o.k = "name" THEN "open" ELSE "use", at[1], at[2], w>>})
  /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED <<cid, status, decl, given>>
NextProc == status = "judge" /\ at[1] \in Procs /\ at[2] > Len(P(at[1]).ops) /\ at' = <<at[1] + 1, 1>> /\ UNCHANGED <<cid, status, decl, given, said>>

Report ==
  /\ status = "judge" /\ at[1] \notin Procs
  /\ Emit([cid |-> cid, said |-> said]) /\ status' = "done" /\ UNCHANGED <<cid, at, decl, given, said>>
Next == Define \/ Defined \/ Compare \/ NextType \/ Compared \/ Judge \/ NextProc \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* Every descendant, however far down, is bound, and nobody else. *)
Inv == status = "done" => \A t, a \in Types : \A n \in Names :
  \A w \in {"final", "private"} : <<"type", t, n, a, w>> \in said <=> (t # a /\ Under(t, a) /\ given[t][n] /\ Has(decl[a][n].flags, w))
==============================================================================
