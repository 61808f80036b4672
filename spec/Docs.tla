-------------------------------- MODULE Docs --------------------------------
(* The text documents an editor shares with the language server.  A text is a  *)
(* sequence of code points.  A case is a history of notifications:             *)
(*   [t |-> "open",   doc, v, text]                                            *)
(*   [t |-> "change", doc, v, edits]   edit = [whole, from, to, text]          *)
(*   [t |-> "close",  doc]                                                     *)
(* Positions are <<line, column>>, both from 0, columns in UTF-16 units.       *)
EXTENDS VCommon

CONSTANTS NDocs, Alphabet, MaxLen, MaxLine, MaxCol

VARIABLES cid, case, ev, ed, open, version, text, fine, log, status
vars == <<cid, case, ev, ed, open, version, text, fine, log, status>>

LF == 10
CR == 13
Units(c) == IF c >= 65536 THEN 2 ELSE 1
Docs == 0..NDocs - 1
Event == case[ev]

------------------------------------------------------------------------------
(* Offsets (how many code points come before). *)
RECURSIVE LineStart(_, _, _)
(* Where the n-th line starts, seen from offset o; -1 if there is none. *)
LineStart(t, n, o) ==
  IF n = 0 THEN o ELSE IF o >= Len(t) THEN -1 ELSE LineStart(t, IF t[o + 1] = LF THEN n - 1 ELSE n, o + 1)
AtEnd(t, o) == o = Len(t) \/ t[o + 1] = LF \/ (t[o + 1] = CR /\ o + 1 < Len(t) /\ t[o + 2] = LF)
(* A column past the end of the line is its end; one in the middle of a        *)
(* character is either side of it.                                             *)
RECURSIVE Along(_, _, _)
Along(t, o, col) ==
  IF col = 0 \/ AtEnd(t, o) THEN {o}
  ELSE IF col < Units(t[o + 1]) THEN {o, o + 1}
  ELSE Along(t, o + 1, col - Units(t[o + 1]))
Offsets(t, p) == LET s == LineStart(t, p[1], 0) IN IF s = -1 THEN {-1} ELSE Along(t, s, p[2])

(* The reverse. *)
RECURSIVE PlaceFrom(_, _, _, _)
PlaceFrom(t, o, i, p) ==
  IF i = o THEN p ELSE PlaceFrom(t, o, i + 1, IF t[i + 1] = LF THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + Units(t[i + 1])>>)
Place(t, o) == PlaceFrom(t, o, 0, <<0, 0>>)

------------------------------------------------------------------------------
Init == cid \in 1..Len(Cases) /\ case = Cases[cid].events /\ ev = 1 /\ ed = 0 /\ status = "run" /\ log = <<>> /\ fine = TRUE
        /\ open = [d \in Docs |-> FALSE] /\ version = [d \in Docs |-> 0] /\ text = [d \in Docs |-> <<>>]

(* Lone carriage returns are nothing the editor and the server agree on. *)
Texts(n) == {t \in UNION {[1..k -> Alphabet] : k \in 0..n} : \A i \in 1..Len(t) : t[i] = CR => i < Len(t) /\ t[i + 1] = LF}
Positions == (0..MaxLine) \X (0..MaxCol)
(* All single edits of small texts. *)
InitAll ==
  /\ \E t \in Texts(MaxLen) : \E from, to \in Positions :
       case = <<[t |-> "open", doc |-> 0, v |-> 1, text |-> t], [t |-> "change", doc |-> 0, v |-> 2, edits |-> <<[whole |-> FALSE, from |-> from, to |-> to, text |-> <<120>>]>>]>>
  /\ cid = 0 /\ ev = 1 /\ ed = 0 /\ status = "run" /\ log = <<>> /\ fine = TRUE
  /\ open = [d \in Docs |-> FALSE] /\ version = [d \in Docs |-> 0] /\ text = [d \in Docs |-> <<>>]

Finished(ok, o2, t2) == log' = Append(log, [ok |-> ok, open |-> o2, text |-> t2]) /\ ev' = ev + 1 /\ ed' = 0 /\ fine' = TRUE

(* Opening an open document again is an error, yet the newer text counts. *)
Open ==
  /\ Event.t = "open"
  /\ open' = [open EXCEPT ![Event.doc] = TRUE] /\ version' = [version EXCEPT ![Event.doc] = Event.v] /\ text' = [text EXCEPT ![Event.doc] = Event.text]
  /\ Finished(~open[Event.doc], open', text')
Close ==
  /\ Event.t = "close"
  /\ open' = [open EXCEPT ![Event.doc] = FALSE] /\ text' = [text EXCEPT ![Event.doc] = <<>>] /\ UNCHANGED version
  /\ Finished(open[Event.doc], open', text')
Refuse ==
  /\ Event.t = "change" /\ ed = 0 /\ (~open[Event.doc] \/ Event.v < version[Event.doc])
  /\ Finished(FALSE, open, text) /\ UNCHANGED <<open, version, text>>
Accept ==
  /\ Event.t = "change" /\ ed = 0 /\ open[Event.doc] /\ Event.v >= version[Event.doc]
  /\ version' = [version EXCEPT ![Event.doc] = Event.v] /\ ed' = 1 /\ UNCHANGED <<ev, open, text, fine, log>>
(* An edit which cannot be placed is an error and has no effect. *)
Edit ==
  /\ Event.t = "change" /\ ed >= 1 /\ ed <= Len(Event.edits)
  /\ LET e == Event.edits[ed] d == Event.doc t == text[d] IN
     IF e.whole THEN text' = [text EXCEPT ![d] = e.text] /\ UNCHANGED fine
     ELSE \E i \in Offsets(t, e.from) : \E j \in Offsets(t, e.to) :
       IF i = -1 \/ j = -1 \/ i > j THEN fine' = FALSE /\ UNCHANGED text
       ELSE text' = [text EXCEPT ![d] = SubSeq(t, 1, i) \o e.text \o SubSeq(t, j + 1, Len(t))] /\ UNCHANGED fine
  /\ ed' = ed + 1 /\ UNCHANGED <<ev, open, version, log>>
Changed == Event.t = "change" /\ ed > Len(Event.edits) /\ Finished(fine, open, text) /\ UNCHANGED <<open, version, text>>

Step == status = "run" /\ ev <= Len(case) /\ (Open \/ Close \/ Refuse \/ Accept \/ Edit \/ Changed) /\ UNCHANGED <<cid, case, status>>
Report == status = "run" /\ ev > Len(case) /\ Emit([cid |-> cid, case |-> IF cid = 0 THEN case ELSE <<>>, log |-> log]) /\ status' = "done" /\ UNCHANGED <<cid, case, ev, ed, open, version, text, fine, log>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SpecAll == InitAll /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* Positions and offsets are inverse, and nothing but changes of a document    *)
(* which is open moves its text.                                               *)
Inv == status = "done" => \A d \in Docs : (open[d] \/ text[d] = <<>>) /\
  \A o \in 0..Len(text[d]) : (o = 0 \/ o = Len(text[d]) \/ ~(text[d][o] = CR /\ text[d][o + 1] = LF)) => Offsets(text[d], Place(text[d], o)) = {o}
Moves == [][\A d \in Docs : text'[d] # text[d] => Event.doc = d /\ (open[d] \/ Event.t = "open")]_vars
==============================================================================
