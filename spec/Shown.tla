------------------------------- MODULE Shown -------------------------------
(* The problems an editor shows while texts change, and what it says a file   *)
(* declares.  A case is a history: with a project (env), files change on disk *)
(* (write; text <<>> with gone removes it) and now and then the project is    *)
(* read anew (parse); without one, texts are opened, changed and looked at.   *)
(* A text is a sequence of pieces [k, n]:                                     *)
(*   ok        a proc                   bad    a proc using a missing name    *)
(*   helper n  proc n of its file       call   a proc calling helper n[2] of  *)
(*   macro n   #define of name n               file n[1]                      *)
(*   warn      a #warn                  fatal  nonsense, ending the reading   *)
EXTENDS VCommon

VARIABLES cid, step, disk, opened, known, reading, shown, out
vars == <<cid, step, disk, opened, known, reading, shown, out>>
C == Cases[cid]
Files == 1..C.n
Gone == [gone |-> TRUE, text |-> <<>>]
S == C.steps[step]
Idle == [on |-> FALSE]

(* Reading goes through the files from the first to the last (or one alone).  *)
Begun(f, l) == [on |-> TRUE, f |-> f, last |-> l, i |-> 1, defs |-> <<>>, helpers |-> {}, calls |-> <<>>, probs |-> <<>>, stop |-> FALSE]
Problem(f, i, k, n, note) == [f |-> f, i |-> i, k |-> k, n |-> n, note |-> note]
Earlier(ds, n) == LET T == {j \in 1..Len(ds) : ds[j].n = n} IN IF T = {} THEN <<>> ELSE <<ds[CHOOSE j \in T : \A o \in T : o <= j]>>
Source(f) == IF C.env THEN disk[f] ELSE opened[f]

Piece ==
  LET r == reading x == Source(r.f).text[r.i] IN
  reading' =
    CASE x.k = "bad" -> [r EXCEPT !.i = @ + 1, !.calls = Append(@, Problem(r.f, r.i, "bad", x.n, <<>>))]
      [] x.k = "warn" -> [r EXCEPT !.i = @ + 1, !.probs = Append(@, Problem(r.f, r.i, "warn", x.n, <<>>))]
      [] x.k = "helper" -> [r EXCEPT !.i = @ + 1, !.helpers = @ \cup {<<r.f, x.n[1]>>}]
      [] x.k = "call" -> [r EXCEPT !.i = @ + 1, !.calls = Append(@, Problem(r.f, r.i, "call", x.n, <<>>))]
      [] x.k = "macro" ->
           LET e == Earlier(r.defs, x.n) IN
           [r EXCEPT !.i = @ + 1, !.defs = Append(@, [n |-> x.n, f |-> r.f, i |-> r.i]),
                     !.probs = IF e = <<>> THEN @ ELSE Append(@, Problem(r.f, r.i, "macro", x.n, <<e[1].f, e[1].i>>))]
      [] x.k = "fatal" -> [r EXCEPT !.stop = TRUE, !.probs = Append(@, Problem(r.f, r.i, "fatal", x.n, <<>>))]
      [] OTHER -> [r EXCEPT !.i = @ + 1]
Over == reading.stop \/ reading.f > reading.last
Read ==
  /\ reading.on /\ ~Over
  /\ UNCHANGED <<cid, step, disk, opened, known, shown, out>>
  /\ IF Source(reading.f).gone THEN reading' = [reading EXCEPT !.f = @ + 1, !.i = 1, !.probs = Append(@, Problem(0, reading.f, "missing", <<>>, <<>>))]
     ELSE IF reading.i > Len(Source(reading.f).text) THEN reading' = [reading EXCEPT !.f = @ + 1, !.i = 1]
     ELSE Piece

(* Then what was read is checked as a whole, unless it made no sense.         *)
Checks == IF C.env THEN C.checker /\ ~reading.stop ELSE TRUE
Found == reading.probs \o IF Checks THEN SelectSeq(reading.calls, LAMBDA p : p.k = "bad" \/ <<p.n[1], p.n[2]>> \notin reading.helpers) ELSE <<>>
ItsOwn(ps, f) == SelectSeq(ps, LAMBDA p : p.f = f)
(* Editors which know of no notes are shown them as problems of their own.    *)
Notes(ps, f) == IF C.related THEN <<>> ELSE SelectSeq(ps, LAMBDA p : p.note # <<>> /\ p.note[1] = f)
View(ps, f) == [own |-> ItsOwn(ps, f), notes |-> Notes(ps, f)]
Nothing == [own |-> <<>>, notes |-> <<>>]
Sense(text) == LET T == {i \in 1..Len(text) : text[i].k = "fatal"} IN IF T = {} THEN Len(text) ELSE (CHOOSE i \in T : \A j \in T : i <= j) - 1
(* The places of the pieces which declare a proc.                             *)
Names(text) == {i \in 1..Sense(text) : text[i].k \in {"ok", "bad", "helper", "call"}}

Init ==
  /\ cid \in 1..Len(Cases) /\ step = 1 /\ reading = Idle /\ out = <<>>
  /\ disk = [f \in 1..Cases[cid].n |-> Gone] /\ opened = [f \in 1..Cases[cid].n |-> Gone]
  /\ known = [f \in 1..Cases[cid].n |-> Gone]
  /\ shown = [f \in 0..Cases[cid].n |-> Nothing]

Finish ==
  /\ reading.on /\ Over /\ reading' = Idle
  /\ known' = IF C.env THEN disk ELSE known
  /\ shown' = IF C.env THEN [f \in 0..C.n |-> View(Found, f)] ELSE [shown EXCEPT ![S.f] = View(Found, S.f)]
  /\ out' = Append(out, [shown |-> shown', names |-> IF C.env THEN {} ELSE Names(opened[S.f].text)])
  /\ step' = step + 1 /\ UNCHANGED <<cid, disk, opened>>
(* A change shows nothing by itself.                                          *)
Silent(d, o) ==
  /\ disk' = d /\ opened' = o /\ step' = step + 1 /\ UNCHANGED <<cid, known, reading, shown>>
  /\ out' = Append(out, [shown |-> shown, names |-> {}])
Act ==
  /\ ~reading.on /\ step <= Len(C.steps)
  /\ CASE S.k = "write" -> Silent([disk EXCEPT ![S.f] = [gone |-> S.gone, text |-> S.text]], opened)
       [] S.k \in {"open", "change"} -> Silent(disk, [opened EXCEPT ![S.f] = [gone |-> FALSE, text |-> S.text]])
       [] S.k = "close" -> Silent(disk, [opened EXCEPT ![S.f] = Gone])
       [] S.k = "names" ->
            /\ out' = Append(out, [shown |-> shown, names |-> Names(IF opened[S.f].gone THEN known[S.f].text ELSE opened[S.f].text)])
            /\ step' = step + 1 /\ UNCHANGED <<cid, disk, opened, known, reading, shown>>
       [] S.k = "parse" -> reading' = Begun(1, C.n) /\ UNCHANGED <<cid, step, disk, opened, known, shown, out>>
       [] OTHER -> reading' = Begun(S.f, S.f) /\ UNCHANGED <<cid, step, disk, opened, known, shown, out>>
Report == ~reading.on /\ step = Len(C.steps) + 1 /\ Emit([cid |-> cid, out |-> out]) /\ step' = step + 1 /\ UNCHANGED <<cid, disk, opened, known, reading, shown, out>>
Next == Act \/ Read \/ Finish \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(step > Len(C.steps) + 1)

(* A project that was read shows problems only where there are pieces for     *)
(* them, and after nonsense none of what was to be checked as a whole.        *)
Inv == step > Len(C.steps) + 1 =>
  \A k \in 1..Len(out) : \A f \in Files :
    /\ (C.env /\ \E g \in Files : \E j \in 1..Len(out[k].shown[g].own) : out[k].shown[g].own[j].k = "fatal")
         => \A j \in 1..Len(out[k].shown[f].own) : out[k].shown[f].own[j].k \notin {"bad", "call"}
    /\ C.related => out[k].shown[f].notes = <<>>
=============================================================================
