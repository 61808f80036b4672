-------------------------------- MODULE DocText --------------------------------
(* Documentation comments: which item each belongs to, and what it says.       *)
(* A case is a program as lines:                                               *)
(*   [k, indent, opens, key, pre, post]                                        *)
(* k: "note" (nothing but the comment `pre[1]`), "item" (a declaration with    *)
(* comments before and after it on its line), "macro" (a #define), "code" (a   *)
(* statement) or "blank".  Comments are numbers into C.notes:                  *)
(*   [target |-> "next" | "around" | "none", form |-> "block" | "line", lines] *)
EXTENDS VCommon

VARIABLES cid, ln, pending, fresh, docs, module, status
vars == <<cid, ln, pending, fresh, docs, module, status>>

C == Cases[cid]
Line == C.lines[ln]
Note(n) == C.notes[n]
Only(s, t) == SelectSeq(s, LAMBDA n : Note(n).target = t)
Real(s) == SelectSeq(s, LAMBDA n : Note(n).target # "none")

Init == cid \in 1..Len(Cases) /\ ln = 1 /\ pending = <<>> /\ fresh = 0 /\ module = <<>> /\ status = "run"
        /\ docs = [i \in 1..Len(Cases[cid].lines) |-> <<>>]

(* Comments about what follows wait for the next item; those about what is     *)
(* around belong to the block just opened, outside all blocks to the file, and *)
(* elsewhere to nothing.                                                       *)
TakeNote ==
  /\ Line.k = "note"
  /\ LET n == Line.pre[1] IN
     \/ Note(n).target = "none" /\ UNCHANGED <<pending, fresh, docs, module>>
     \/ Note(n).target = "next" /\ pending' = Append(pending, n) /\ UNCHANGED <<fresh, docs, module>>
     \/ Note(n).target = "around" /\ UNCHANGED <<pending, fresh>>
        /\ IF fresh # 0 /\ Line.indent = C.lines[fresh].indent + 1 THEN docs' = [docs EXCEPT ![fresh] = @ \o <<n>>] /\ UNCHANGED module
           ELSE IF Line.indent = 0 THEN module' = Append(module, [line |-> ln, note |-> n]) /\ UNCHANGED docs
           ELSE UNCHANGED <<docs, module>>
TakeItem ==
  /\ Line.k = "item"
  /\ docs' = [docs EXCEPT ![ln] = pending \o Only(Line.pre, "next") \o Only(Line.post, "around")]
  /\ pending' = Only(Line.post, "next") /\ fresh' = (IF Line.opens THEN ln ELSE 0) /\ UNCHANGED module
(* After a macro's name either form does. *)
TakeMacro ==
  /\ Line.k = "macro" /\ docs' = [docs EXCEPT ![ln] = pending \o Real(Line.post)] /\ pending' = <<>> /\ UNCHANGED <<fresh, module>>
TakeCode == Line.k = "code" /\ pending' = Only(Line.post, "next") /\ fresh' = 0 /\ UNCHANGED <<docs, module>>
Skip == Line.k = "blank" /\ UNCHANGED <<pending, fresh, docs, module>>
Step == status = "run" /\ ln <= Len(C.lines) /\ (TakeNote \/ TakeItem \/ TakeMacro \/ TakeCode \/ Skip) /\ ln' = ln + 1 /\ UNCHANGED <<cid, status>>

------------------------------------------------------------------------------
(* Text: decoration shared by all lines which say anything is stripped from    *)
(* their ends, and lines which say nothing vanish at either end.               *)
Decoration(f) == IF f = "block" THEN {9, 32, 42} ELSE {9, 32, 47}
Blank(l, f) == \A i \in 1..Len(l) : l[i] \in Decoration(f)
RECURSIVE Lead(_, _)
Lead(l, f) == IF l # <<>> /\ l[1] \in Decoration(f) THEN <<l[1]>> \o Lead(Tail(l), f) ELSE <<>>
RECURSIVE Common(_, _)
Common(a, b) == IF a # <<>> /\ b # <<>> /\ a[1] = b[1] THEN <<a[1]>> \o Common(Tail(a), Tail(b)) ELSE <<>>
RECURSIVE CommonOf(_)
CommonOf(ls) == IF Len(ls) = 1 THEN ls[1] ELSE Common(ls[1], CommonOf(Tail(ls)))
Simple(ls, f) ==
  LET said == {i \in 1..Len(ls) : ~Blank(ls[i], f)} IN
  IF said = {} THEN <<>>
  ELSE LET lo == CHOOSE i \in said : \A j \in said : i <= j
           hi == CHOOSE i \in said : \A j \in said : i >= j
           full == SelectSeq(ls, LAMBDA l : ~Blank(l, f))
           front == Len(CommonOf([i \in 1..Len(full) |-> Lead(full[i], f)]))
           back == Len(CommonOf([i \in 1..Len(full) |-> Lead(Reverse(full[i]), f)])) IN
       [i \in 1..hi - lo + 1 |-> IF Blank(ls[lo + i - 1], f) THEN <<>> ELSE SubSeq(ls[lo + i - 1], front + 1, Len(ls[lo + i - 1]) - back)]

(* Blocks are paragraphs; lines together are.  Blocks saying nothing are not   *)
(* there.                                                                      *)
Says(n) == \E i \in 1..Len(Note(n).lines) : ~Blank(Note(n).lines[i], Note(n).form)
RECURSIVE Paragraphs(_, _)
Paragraphs(s, lines) ==
  LET done == IF lines = <<>> THEN <<>> ELSE LET p == Simple(lines, "line") IN IF p = <<>> THEN <<>> ELSE <<p>> IN
  IF s = <<>> THEN done
  ELSE LET n == Note(Head(s)) IN
       IF n.form = "line" THEN Paragraphs(Tail(s), lines \o n.lines)
       ELSE IF ~Says(Head(s)) THEN Paragraphs(Tail(s), lines)
       ELSE done \o <<Simple(n.lines, "block")>> \o Paragraphs(Tail(s), <<>>)

(* What one thing has, which several lines may declare. *)
RECURSIVE Gather(_, _)
Gather(key, i) == IF i > Len(C.lines) THEN <<>> ELSE (IF C.lines[i].key = key THEN docs[i] ELSE <<>>) \o Gather(key, i + 1)
Keys == {C.lines[i].key : i \in {j \in 1..Len(C.lines) : docs[j] # <<>>}}
Report ==
  /\ status = "run" /\ ln > Len(C.lines)
  /\ Emit([cid |-> cid, module |-> module, docs |-> {[key |-> k, notes |-> Gather(k, 1), text |-> Paragraphs(Gather(k, 1), <<>>)] : k \in Keys}])
  /\ status' = "done" /\ UNCHANGED <<cid, ln, pending, fresh, docs, module>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* No comment belongs to two things, and ordinary ones to none. *)
Inv == status = "done" =>
  LET all == Flatten(docs) \o [i \in 1..Len(module) |-> module[i].note] IN
  /\ \A i, j \in 1..Len(all) : i # j => all[i] # all[j]
  /\ \A i \in 1..Len(all) : Note(all[i]).target # "none"
==============================================================================
