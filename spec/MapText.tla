------------------------------- MODULE MapText --------------------------------
(* How values are written in a map file: a writer that chooses a form for a   *)
(* string, and a scanner that goes through the entry one character at a time   *)
(* to find where the values end.  Contents are sequences of units: a unit is a *)
(* character, or a backslash and the character it protects.                    *)
EXTENDS VCommon

CONSTANTS Mode, Units, MaxUnits
VARIABLES cid, form, content, text, pos, mode, esc, pend, cur, out, status
vars == <<cid, form, content, text, pos, mode, esc, pend, cur, out, status>>

Forms == {"quoted", "long", "raw", "rawlong", "resource"}
Esc(u) == Len(u) = 2 /\ u[1] = "\\"
Str(c) == Flatten(c)
Pairs(s, a, b) == \E i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b

(* Contents each form can hold.  A backslash which protects nothing is for raw *)
(* forms only.                                                                 *)
Lone(c) == \E i \in 1..Len(c) : c[i] = <<"\\">>
Holds(f, c) ==
  CASE f \in {"quoted", "long", "resource"} /\ Lone(c) -> FALSE
    [] f = "quoted" -> \A i \in 1..Len(c) : c[i] # <<"\"">> /\ c[i] # <<"\n">>
    [] f = "long" -> ~Pairs(c, <<"\"">>, <<"}">>)
    [] f = "raw" -> ~\E i \in 1..Len(Str(c)) : Str(c)[i] = "@"
    [] f = "rawlong" -> ~Pairs(Str(c), "\"", "}")
    [] f = "resource" -> \A i \in 1..Len(c) : ~Esc(c[i]) /\ c[i] # <<"'">> /\ c[i] # <<"\n">>

Literal(f, c) ==
  CASE f = "quoted" -> <<"\"">> \o Str(c) \o <<"\"">>
    [] f = "long" -> <<"{", "\"">> \o Str(c) \o <<"\"", "}">>
    [] f = "raw" -> <<"@", "@">> \o Str(c) \o <<"@">>
    [] f = "rawlong" -> <<"@", "{", "\"">> \o Str(c) \o <<"\"", "}">>
    [] f = "resource" -> <<"'">> \o Str(c) \o <<"'">>

(* The writer's choice for a string. *)
Bare(c) == \E i \in 1..Len(c) : c[i] = <<"\"">>
FormFor(c) == IF Holds("quoted", c) THEN "quoted" ELSE IF Holds("long", c) THEN "long" ELSE "raw"

(* The entry's text: two variables, the second a plain number. *)
Entry(f, c) == <<"v", "=">> \o Literal(f, c) \o <<";", "w", "=", "1", "}">>

Init ==
  /\ IF Mode = "gen" THEN cid = 0 /\ form \in Forms /\ content = <<>> /\ text = <<>> /\ status = "build"
     ELSE cid \in 1..Len(Cases) /\ form = Cases[cid].form /\ content = Cases[cid].content /\ text = Entry(form, content) /\ status = "scan"
  /\ pos = 1 /\ mode = "code" /\ esc = FALSE /\ pend = FALSE /\ cur = <<>> /\ out = <<>>

Grow == /\ status = "build" /\ Len(content) < MaxUnits /\ \E u \in Units : content' = Append(content, u)
        /\ UNCHANGED <<cid, form, text, pos, mode, esc, pend, cur, out, status>>
Start == /\ status = "build" /\ Holds(form, content) /\ text' = Entry(form, content) /\ status' = "scan"
         /\ UNCHANGED <<cid, form, content, pos, mode, esc, pend, cur, out>>

EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

(* One character of the entry. *)
Scan ==
  /\ status = "scan" /\ pos <= Len(text)
  /\ LET ch == text[pos]
         stay(m, e, p) == mode' = m /\ esc' = e /\ pend' = p /\ cur' = Append(cur, ch) /\ out' = out /\ status' = status IN
     CASE mode = "code" ->
            IF ch = "\"" /\ EndsWith(cur, <<"@", "{">>) THEN stay("rawlong", FALSE, FALSE)
            ELSE IF ch = "\"" /\ EndsWith(cur, <<"{">>) THEN stay("long", FALSE, FALSE)
            ELSE IF pend /\ ch # "{" THEN stay("raw", FALSE, FALSE)
            ELSE IF ch = "\"" THEN stay("quoted", FALSE, FALSE)
            ELSE IF ch = "'" THEN stay("resource", FALSE, FALSE)
            ELSE IF ch = ";" \/ ch = "}"
                 THEN out' = Append(out, cur) /\ cur' = <<>> /\ mode' = mode /\ esc' = FALSE /\ pend' = FALSE
                      /\ status' = IF ch = "}" THEN "done" ELSE status
            ELSE stay("code", FALSE, ch = "@")
       [] mode \in {"quoted", "resource"} ->
            IF esc THEN stay(mode, FALSE, FALSE)
            ELSE IF ch = "\\" THEN stay(mode, TRUE, FALSE)
            ELSE stay(IF ch = (IF mode = "quoted" THEN "\"" ELSE "'") THEN "code" ELSE mode, FALSE, FALSE)
       [] mode = "long" ->
            IF esc THEN stay(mode, FALSE, FALSE)
            ELSE IF ch = "\\" THEN stay(mode, TRUE, FALSE)
            ELSE stay(IF ch = "}" /\ pend THEN "code" ELSE mode, FALSE, ch = "\"")
       [] mode = "raw" -> stay(IF ch = "@" THEN "code" ELSE mode, FALSE, FALSE)
       [] mode = "rawlong" -> stay(IF ch = "}" /\ pend THEN "code" ELSE mode, FALSE, ch = "\"")
  /\ pos' = pos + 1 /\ UNCHANGED <<cid, form, content, text>>

Report == /\ status = "done"
          /\ Emit([cid |-> cid, form |-> form, content |-> content, text |-> text])
          /\ status' = "reported" /\ UNCHANGED <<cid, form, content, text, pos, mode, esc, pend, cur, out>>
Next == Grow \/ Start \/ Scan \/ Report

Inv ==
  \* the scanner finds exactly the values that were written
  /\ status \in {"done", "reported"} => /\ pos = Len(text) + 1
                                       /\ out = <<<<"v", "=">> \o Literal(form, content), <<"w", "=", "1">>>>
  /\ status = "scan" => pos <= Len(text)
  \* the writer always has a form, except for a bare quote before a brace together with the raw delimiter
  /\ status = "build" => (Holds(FormFor(content), content) \/ \E i \in 1..Len(Str(content)) : Str(content)[i] = "@")
==============================================================================
