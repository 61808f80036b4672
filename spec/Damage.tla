-------------------------------- MODULE Damage --------------------------------
(* What becomes of a program part of which is damaged.                         *)
(* A case is a sequence of lines of declarations, in text order:                *)
(*   [k, body, hurt]                                                            *)
(* k: "type", "var", "proc", or "junk" (a line nothing can be read from);       *)
(* body: the tokens of a proc's body as brackets and the rest:                  *)
(*   "(" ")" "[" "]" ";" "x" (any other token);                                 *)
(* hurt: "none", or "some" when a token of the body was put in, left out or     *)
(* changed.                                                                     *)
EXTENDS VCommon

VARIABLES cid, i, j, open, broken, kept, known, state, said, status
vars == <<cid, i, j, open, broken, kept, known, state, said, status>>

L == Cases[cid].lines
Opens(t) == t \in {"(", "["}
Closes(t) == t \in {")", "]"}
Fits(a, b) == (a = "(" /\ b = ")") \/ (a = "[" /\ b = "]")

Init ==
  /\ cid \in 1..Len(Cases) /\ i = 1 /\ j = 0 /\ open = <<>> /\ broken = FALSE
  /\ kept = {}          \* lines whose declaration is in the tree
  /\ known = {}         \* proc lines whose body is known whole, as written
  /\ state = <<>>       \* what became of each proc's body
  /\ said = {}          \* lines about whose text something has to be said
  /\ status = "reading"

At == L[i]
Declare ==
  /\ status = "reading" /\ i <= Len(L) /\ At.k \in {"type", "var"}
  /\ kept' = kept \cup {i} /\ i' = i + 1
  /\ UNCHANGED <<cid, j, open, broken, known, state, said, status>>
(* The tokens of a body are read up to its end before anything is made of them: *)
(* whatever they are, what follows is read as if they were in order.            *)
Header ==
  /\ status = "reading" /\ i <= Len(L) /\ At.k = "proc" /\ j = 0
  /\ j' = 1 /\ open' = <<>> /\ broken' = FALSE
  /\ UNCHANGED <<cid, i, kept, known, state, said, status>>
Token ==
  /\ status = "reading" /\ i <= Len(L) /\ j > 0 /\ j <= Len(At.body)
  /\ LET t == At.body[j] IN
     /\ open' = IF Opens(t) THEN Append(open, t)
                ELSE IF Closes(t) /\ open # <<>> /\ Fits(open[Len(open)], t) THEN SubSeq(open, 1, Len(open) - 1) ELSE open
     /\ broken' = (broken \/ (Closes(t) /\ (open = <<>> \/ ~Fits(open[Len(open)], t))))
  /\ j' = j + 1
  /\ UNCHANGED <<cid, i, kept, known, state, said, status>>
(* A body whose end has come: one in order is known, one whose brackets do not  *)
(* pair up is not and that is said; other damage may go either way.             *)
Finish ==
  /\ status = "reading" /\ i <= Len(L) /\ j > Len(At.body)
  /\ IF open # <<>>
     THEN status' = "undetermined" /\ UNCHANGED <<kept, known, state, said, i>>
     ELSE /\ kept' = kept \cup {i} /\ i' = i + 1
          /\ known' = IF At.hurt = "none" THEN known \cup {i} ELSE known
          /\ said' = IF broken THEN said \cup {i} ELSE said
          /\ state' = Append(state, <<i, IF At.hurt = "none" THEN "whole" ELSE IF broken THEN "lost" ELSE "open">>)
          /\ UNCHANGED status
  /\ j' = 0 /\ UNCHANGED <<cid, open, broken>>
(* Nothing is read after a declaration which makes no sense. *)
Stop ==
  /\ status = "reading" /\ i <= Len(L) /\ At.k = "junk"
  /\ said' = said \cup {i} /\ status' = "cut"
  /\ UNCHANGED <<cid, i, j, open, broken, kept, known, state>>
End ==
  /\ status = "reading" /\ i > Len(L)
  /\ status' = "done" /\ UNCHANGED <<cid, i, j, open, broken, kept, known, state, said>>
Report ==
  /\ status \in {"done", "cut", "undetermined"}
  /\ Emit([cid |-> cid, kept |-> kept, known |-> known, state |-> state, said |-> said, status |-> status])
  /\ status' = "out"
  /\ UNCHANGED <<cid, i, j, open, broken, kept, known, state, said>>
Next == Declare \/ Header \/ Token \/ Finish \/ Stop \/ End \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(status = "out")
(* Everything before the first line of junk is kept, everything after is not,   *)
(* damage in bodies notwithstanding.                                            *)
Junk == {n \in 1..Len(L) : L[n].k = "junk"}
Inv == status = "out" =>
  /\ \/ \E n \in 1..Len(L) : L[n].k = "proc" /\ n \notin kept /\ \A m \in Junk : n < m     \* undetermined
     \/ kept = {n \in 1..Len(L) : \A m \in Junk : n < m}
  (* What is in order is never the worse for what is not. *)
  /\ \A n \in kept : L[n].k = "proc" /\ L[n].hurt = "none" => n \in known
  /\ \A n \in said : L[n].k = "junk" \/ L[n].hurt # "none"
===============================================================================
