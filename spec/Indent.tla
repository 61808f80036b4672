-------------------------------- MODULE Indent --------------------------------
(* Block structure: how line heads, explicit braces and parentheses turn the  *)
(* lexer's tokens into a stream with braces and separators only.              *)
(*                                                                            *)
(* A program is a sequence of lines [n: blanks at the line head, t: tokens];  *)
(* a line without tokens is blank or only a comment.                          *)
(* Mode "gen": all programs of at most MaxLines lines from Lines.             *)
(* Mode "cases": programs from the case file.                                 *)
(* Mode "tree": block trees from the case file, written once with indentation *)
(* and once with braces; the two must mean the same.                          *)
EXTENDS VCommon

CONSTANTS Mode, Lines, MaxLines

VARIABLES cid, prog, li, ti, unit, depth, parens, fresh, lastl, out, errs, status

vars == <<cid, prog, li, ti, unit, depth, parens, fresh, lastl, out, errs, status>>

(* unit: blanks per level, 0 when no level is open.  fresh: the next token is  *)
(* the first of its line and the break before it counts.  lastl: line of the   *)
(* last token, to which inserted punctuation belongs.                          *)

------------------------------------------------------------------------------
(* Trees: a node is [w: words of its line, k: children, b: braced].  *)
RECURSIVE Flat(_, _, _)
Flat(nodes, ind, per) ==
  IF nodes = <<>> THEN <<>>
  ELSE LET x == Head(nodes) IN
       (<<[n |-> ind, t |-> x.w]>> \o Flat(x.k, ind + per, per)) \o Flat(Tail(nodes), ind, per)
RECURSIVE Braced(_)
Braced(nodes) ==
  IF nodes = <<>> THEN <<>>
  ELSE LET x == Head(nodes) IN
       (IF x.k = <<>> THEN <<[n |-> 0, t |-> Append(x.w, ";")]>>
        ELSE <<[n |-> 0, t |-> Append(x.w, "{")]>> \o Braced(x.k) \o <<[n |-> 0, t |-> <<"}">>]>>)
       \o Braced(Tail(nodes))
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls).t \o Joined(Tail(ls))
(* The meaning of a tree, separators around braces dropped. *)
RECURSIVE Mean(_)
Mean(nodes) ==
  IF nodes = <<>> THEN <<>>
  ELSE LET x == Head(nodes) IN
       (IF x.k = <<>> THEN Append(x.w, ";") ELSE x.w \o <<"{">> \o Mean(x.k) \o <<"}">>)
       \o Mean(Tail(nodes))

RECURSIVE Norm(_, _)       \* drop separators next to braces, doubled or leading ones; close open items with one
Norm(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET c == Head(s) IN
       IF c = ";" /\ (acc = <<>> \/ Last(acc) \in {";", "{", "}"}) THEN Norm(Tail(s), acc)
       ELSE IF c = "}" /\ acc # <<>> /\ ~(Last(acc) \in {";", "{", "}"}) THEN Norm(Tail(s), acc \o <<";", "}">>)
       ELSE Norm(Tail(s), Append(acc, c))

------------------------------------------------------------------------------
Init ==
  /\ \/ /\ Mode = "gen" /\ cid = 0
        /\ \E n \in 1..MaxLines : prog \in [1..n -> Lines]
     \/ Mode = "cases" /\ cid \in 1..Len(Cases) /\ prog = Cases[cid].prog
     \/ /\ Mode = "tree" /\ cid \in 1..Len(Cases)
        /\ \/ prog = Flat(Cases[cid].tree, 0, Cases[cid].per)
           \/ prog = <<[n |-> 0, t |-> Joined(Braced(Cases[cid].tree))]>>
  /\ li = 1 /\ ti = 1 /\ unit = 0 /\ depth = 0 /\ parens = 0 /\ fresh = FALSE /\ lastl = 0
  /\ out = <<>> /\ errs = <<>> /\ status = "run"

Ins(t, n) == [i \in 1..n |-> [t |-> t, l |-> IF lastl = 0 THEN 1 ELSE lastl, own |-> FALSE]]
Own(t) == <<[t |-> t, l |-> li, own |-> TRUE]>>

(* The punctuation a line head asks for: given its blanks, the new unit and depth. *)
HeadOf(n) ==
  LET u == IF n = 0 THEN 0 ELSE IF unit = 0 THEN n ELSE unit
      d == IF n = 0 THEN 0 ELSE n \div u IN
  [u |-> u, d |-> d,
   ins |-> IF d > depth THEN Ins("{", d - depth) ELSE IF d < depth THEN Ins("}", depth - d) ELSE Ins(";", 1),
   err |-> (IF n > 0 /\ n % u # 0 THEN <<[e |-> "uneven", l |-> li]>> ELSE <<>>)
           \o (IF d > depth + 1 THEN <<[e |-> "jump", l |-> li]>> ELSE <<>>)]

Token ==
  /\ status = "run" /\ li <= Len(prog) /\ ti <= Len(prog[li].t)
  /\ LET t == prog[li].t[ti]
         heads == fresh /\ ~(t \in {"{", "}"})
         h == IF heads THEN HeadOf(prog[li].n) ELSE [u |-> unit, d |-> depth, ins |-> <<>>, err |-> <<>>] IN
     /\ out' = out \o h.ins \o Own(t)
     /\ errs' = errs \o h.err \o (IF t = "}" /\ h.d = 0 THEN <<[e |-> "unmatched", l |-> li]>> ELSE <<>>)
     /\ parens' = IF t = "(" THEN parens + 1 ELSE IF t = ")" /\ parens > 0 THEN parens - 1 ELSE parens
     /\ depth' = IF t = "{" THEN h.d + 1 ELSE IF t = "}" /\ h.d > 0 THEN h.d - 1 ELSE h.d
     /\ unit' = IF depth' = 0 THEN 0 ELSE IF h.u = 0 THEN 1 ELSE h.u
     /\ lastl' = li /\ fresh' = FALSE /\ ti' = ti + 1
     /\ UNCHANGED <<cid, prog, li, status>>

EndLine ==
  /\ status = "run" /\ li <= Len(prog) /\ ti > Len(prog[li].t)
  /\ li' = li + 1 /\ ti' = 1 /\ fresh' = (fresh \/ parens = 0)
  /\ UNCHANGED <<cid, prog, unit, depth, parens, lastl, out, errs, status>>

End ==
  /\ status = "run" /\ li > Len(prog)
  /\ out' = out \o [i \in 1..(depth + 1) |-> [t |-> IF i = 1 THEN ";" ELSE "}", l |-> 0, own |-> FALSE]]
  /\ depth' = 0 /\ unit' = 0 /\ status' = "done"
  /\ UNCHANGED <<cid, prog, li, ti, parens, fresh, lastl, errs>>

Report ==
  /\ status = "done"
  /\ Emit([cid |-> cid, prog |-> IF Mode = "cases" THEN <<>> ELSE prog, out |-> out, errs |-> errs])
  /\ status' = "reported" /\ UNCHANGED <<cid, prog, li, ti, unit, depth, parens, fresh, lastl, out, errs>>

Next == Token \/ EndLine \/ End \/ Report

------------------------------------------------------------------------------
Opens(s, t) == Cardinality({i \in 1..Len(s) : s[i].t = t})
Texts(s) == [i \in 1..Len(s) |-> s[i].t]
RECURSIVE Tokens(_, _)
Tokens(ls, n) == IF n = 0 THEN <<>> ELSE Tokens(ls, n - 1) \o ls[n].t
Unmatched == Len(SelectSeq(errs, LAMBDA e : e.e = "unmatched"))

(* The input's own tokens, all of them and in order; braces balance but for the diagnosed ones. *)
Complete == status = "done" => Texts(SelectSeq(out, LAMBDA o : o.own)) = Tokens(prog, Len(prog))
Balanced == depth = Opens(out, "{") - Opens(out, "}") + Unmatched
NoWidth == (depth = 0) = (unit = 0)
(* Indentation and braces mean the same. *)
Equivalent == (Mode = "tree" /\ status = "done") =>
                /\ errs = <<>>
                /\ Norm(Texts(out), <<>>) = Mean(Cases[cid].tree)
Inv == Complete /\ Balanced /\ NoWidth /\ Equivalent
==============================================================================
