--------------------------------- MODULE Expr ---------------------------------
(* How an expression groups.  A machine reads the tokens left to right and    *)
(* keeps the trees finished so far and the operators still waiting for an     *)
(* operand; the precedence table decides when a waiting operator is complete. *)
(* That the resulting tree obeys the table (Obeys) and spells the tokens that *)
(* were read (Spells) is stated separately and checked in every state.        *)
(*                                                                            *)
(* Tokens: "a".."z", "1".. atoms; ".x", "?.x", "::x" field accesses; "(" ")"; *)
(* "[" "?[" "]"; "f(" "list(" "," ")" calls; "s[" "]s" interpolation; the     *)
(* operators themselves.                                                      *)
(* Mode "gen": texts made of at most MaxOps of Ops between atoms, each        *)
(* atom with one of Decor around it.  Mode "cases": tokens from the case file.*)
EXTENDS VCommon

CONSTANTS Mode, Ops, MaxOps, Decor

VARIABLES cid, text, pos, want, vals, ops, status

vars == <<cid, text, pos, want, vals, ops, status>>

Level(o) ==           \* 1 binds tightest
  CASE o = "**" -> 1
    [] o \in {"*", "/", "%", "%%"} -> 2
    [] o \in {"+", "-"} -> 3
    [] o \in {"<", "<=", ">", ">=", "<=>"} -> 4
    [] o \in {"<<", ">>"} -> 5
    [] o \in {"==", "!=", "<>", "~=", "~!"} -> 6
    [] o = "&" -> 7 [] o = "^" -> 8 [] o = "|" -> 9 [] o = "&&" -> 10 [] o = "||" -> 11
    [] o \in {"?", ":"} -> 12
    [] o \in {"=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||="} -> 13
    [] o \in {"in", "to"} -> 14
    [] OTHER -> 0
IsBin(o) == Level(o) > 0
Right(o) == Level(o) \in {12, 13} \/ o = "to"      \* equal operators group to the right
Prefix == {"-", "!", "~", "++", "--", "&", "*"}
Postfix == {"++", "--"}
Opens == {"(", "[", "?[", "f(", "list(", "s["}
Closes == {")", "]", "]s"}
Fields == {".x", "?.x", "::x"}
Separators == {",", ":"}

------------------------------------------------------------------------------
(* Trees: <<"at", a>>, <<"pre", o, t>>, <<"post", o, t>>, <<"bin", o, l, r>>,   *)
(* <<"if", c, t, e>>, <<"paren", t>>, <<"idx", o, b, i>>, <<"field", f, b>>,    *)
(* <<"call", f, args>>, <<"istr", args>>.                                       *)
Node(k, o, kids) == [k |-> k, o |-> o, kids |-> kids]
Atom(a) == Node("at", a, <<>>)

(* Waiting operators: [k, o] with k in pre, bin, q (condition read), else,     *)
(* open (a bracket; n counts the finished elements before the current one).   *)
W(k, o, n) == [k |-> k, o |-> o, n |-> n]

Top == Last(ops)
LevelOf(w) == CASE w.k = "pre" -> 0 [] w.k = "bin" -> Level(w.o) [] w.k = "else" -> 12 [] OTHER -> 99
(* Does the waiting operator w own the finished operand before operator o? *)
Owns(w, o) == LevelOf(w) # 99 /\ (LevelOf(w) < Level(o) \/ (LevelOf(w) = Level(o) /\ ~Right(w.o) /\ ~Right(o)))

Apply(vs, w) ==
  LET n == Len(vs) IN
  CASE w.k = "pre" -> Append(SubSeq(vs, 1, n - 1), Node("pre", w.o, <<vs[n]>>))
    [] w.k = "bin" -> Append(SubSeq(vs, 1, n - 2), Node("bin", w.o, <<vs[n - 1], vs[n]>>))
    [] w.k = "else" -> Append(SubSeq(vs, 1, n - 3), Node("if", "?", <<vs[n - 2], vs[n - 1], vs[n]>>))

RECURSIVE Reduce(_, _, _)     \* finish every waiting operator that operator o completes
Reduce(vs, os, o) ==
  IF os # <<>> /\ (IF o = "end" THEN LevelOf(Last(os)) # 99 ELSE Owns(Last(os), o))
  THEN Reduce(Apply(vs, Last(os)), Front(os), o) ELSE [v |-> vs, o |-> os]

Init ==
  /\ \/ /\ Mode = "gen" /\ cid = 0
        /\ \E n \in 0..MaxOps : \E f \in [1..n -> Ops] : \E d \in [1..(n + 1) -> Decor] :
             LET at(i) == d[i].b \o <<SubSeq("abcdefgh", i, i)>> \o d[i].a IN
             text = FoldSeqL(LAMBDA acc, i : acc \o f[i] \o at(i + 1), at(1), [i \in 1..n |-> i])
     \/ Mode = "cases" /\ cid \in 1..Len(Cases) /\ text = Cases[cid].toks
  /\ pos = 1 /\ want = "operand" /\ vals = <<>> /\ ops = <<>> /\ status = "run"

Goto(w, v, o) == pos' = pos + 1 /\ want' = w /\ vals' = v /\ ops' = o /\ UNCHANGED <<cid, text, status>>
Bad == status' = "bad" /\ UNCHANGED <<cid, text, pos, want, vals, ops>>

Operand(t) ==
  CASE t \in Prefix -> Goto("operand", vals, Append(ops, W("pre", t, 0)))
    [] t \in Opens \ {"[", "?["} -> Goto("operand", vals, Append(ops, W("open", t, 0)))
    [] t = ")" /\ ops # <<>> /\ Top.k = "open" /\ Top.o \in {"f(", "list("} /\ Top.n = 0 ->
         Goto("operator", Append(vals, Node("call", Top.o, <<>>)), Front(ops))
    [] ~IsBin(t) /\ ~(t \in Prefix \cup Opens \cup Closes \cup Fields \cup Separators) ->
         Goto("operator", Append(vals, Atom(t)), ops)
    [] OTHER -> Bad

Close(t) ==
  LET r == Reduce(vals, ops, "end") IN
  IF r.o = <<>> \/ Last(r.o).k # "open" THEN Bad
  ELSE LET w == Last(r.o)
           n == Len(r.v)
           keep == SubSeq(r.v, 1, n - (w.n + 1))
           args == SubSeq(r.v, n - w.n, n) IN
  CASE t = ")" /\ w.o = "(" /\ w.n = 0 -> Goto("operator", Append(keep, Node("paren", "(", args)), Front(r.o))
    [] t = ")" /\ w.o \in {"f(", "list("} -> Goto("operator", Append(keep, Node("call", w.o, args)), Front(r.o))
    [] t = "]" /\ w.o \in {"[", "?["} /\ w.n = 0 ->
         Goto("operator", Append(SubSeq(r.v, 1, n - 2), Node("idx", w.o, <<r.v[n - 1], r.v[n]>>)), Front(r.o))
    [] t = "]s" /\ w.o = "s[" /\ w.n = 0 -> Goto("operator", Append(keep, Node("istr", "s[", args)), Front(r.o))
    [] t = "," /\ w.o \in {"f(", "list("} -> Goto("operand", r.v, Append(Front(r.o), [w EXCEPT !.n = @ + 1]))
    [] OTHER -> Bad

Operator(t) ==
  CASE t \in Postfix -> Goto("operator", Append(Front(vals), Node("post", t, <<Last(vals)>>)), ops)
    [] t \in Fields -> Goto("operator", Append(Front(vals), Node("field", t, <<Last(vals)>>)), ops)
    [] t \in {"[", "?["} -> Goto("operand", vals, Append(ops, W("open", t, 0)))
    [] t \in Closes \cup {","} -> Close(t)
    [] t = "?" -> LET r == Reduce(vals, ops, "?") IN Goto("operand", r.v, Append(r.o, W("q", "?", 0)))
    [] t = ":" -> LET r == Reduce(vals, ops, "end") IN      \* nothing looser than a conditional may stand in its middle
         IF r.o # <<>> /\ Last(r.o).k = "q" THEN Goto("operand", r.v, Append(Front(r.o), W("else", "?", 0))) ELSE Bad
    [] t = "to" -> LET r == Reduce(vals, ops, "to") IN
         IF r.o # <<>> /\ Last(r.o).k = "bin" /\ Last(r.o).o = "in" THEN Goto("operand", r.v, Append(r.o, W("bin", "to", 0))) ELSE Bad
    [] IsBin(t) /\ ~(t \in {"?", ":", "to"}) ->
         LET r == Reduce(vals, ops, t) IN
         IF r.o # <<>> /\ Last(r.o).k = "q" /\ Level(t) > 12 THEN Bad      \* `a ? b = c : d`
         ELSE Goto("operand", r.v, Append(r.o, W("bin", t, 0)))
    [] OTHER -> Bad

Step ==
  /\ status = "run"
  /\ IF pos <= Len(text) THEN IF want = "operand" THEN Operand(text[pos]) ELSE Operator(text[pos])
     ELSE IF want = "operand" THEN Bad
     ELSE LET r == Reduce(vals, ops, "end") IN
          IF r.o = <<>> /\ Len(r.v) = 1
          THEN vals' = r.v /\ ops' = <<>> /\ status' = "done" /\ UNCHANGED <<cid, text, pos, want>>
          ELSE Bad

Report ==
  /\ status = "done"
  /\ Emit([cid |-> cid, text |-> IF Mode = "gen" THEN text ELSE <<>>, tree |-> vals[1]])
  /\ status' = "reported" /\ UNCHANGED <<cid, text, pos, want, vals, ops>>

Next == Step \/ Report

------------------------------------------------------------------------------
RECURSIVE Spell(_)
RECURSIVE SpellArgs(_)
SpellArgs(as) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN Spell(as[1]) ELSE Spell(Head(as)) \o <<",">> \o SpellArgs(Tail(as))
Spell(t) ==
  CASE t.k = "at" -> <<t.o>>
    [] t.k = "pre" -> <<t.o>> \o Spell(t.kids[1])
    [] t.k = "post" -> Append(Spell(t.kids[1]), t.o)
    [] t.k = "field" -> Append(Spell(t.kids[1]), t.o)
    [] t.k = "bin" -> Spell(t.kids[1]) \o <<t.o>> \o Spell(t.kids[2])
    [] t.k = "if" -> Spell(t.kids[1]) \o <<"?">> \o Spell(t.kids[2]) \o <<":">> \o Spell(t.kids[3])
    [] t.k = "paren" -> <<"(">> \o Spell(t.kids[1]) \o <<")">>
    [] t.k = "idx" -> Spell(t.kids[1]) \o <<t.o>> \o Spell(t.kids[2]) \o <<"]">>
    [] t.k = "call" -> <<t.o>> \o SpellArgs(t.kids) \o <<")">>
    [] t.k = "istr" -> <<"s[">> \o Spell(t.kids[1]) \o <<"]s">>

(* The level of a tree's outermost operator; bracketed things are atoms. *)
TopLevel(t) == CASE t.k = "bin" -> Level(t.o) [] t.k = "if" -> 12 [] OTHER -> 0
RECURSIVE Obeys(_)
Obeys(t) ==
  /\ \A i \in 1..Len(t.kids) : Obeys(t.kids[i])
  /\ t.k = "pre" => TopLevel(t.kids[1]) = 0
  /\ t.k \in {"post", "field"} => TopLevel(t.kids[1]) = 0 /\ t.kids[1].k # "pre"
  /\ t.k = "idx" => TopLevel(t.kids[1]) = 0 /\ t.kids[1].k # "pre"
  /\ t.k = "if" => TopLevel(t.kids[1]) < 12 /\ TopLevel(t.kids[2]) <= 12 /\ TopLevel(t.kids[3]) <= 12
  /\ t.k = "bin" =>
       LET l == Level(t.o) IN
       IF t.o = "to" THEN TopLevel(t.kids[1]) < 14 /\ TopLevel(t.kids[2]) <= 14
       ELSE IF t.o = "in" THEN TopLevel(t.kids[1]) <= 14 /\ (TopLevel(t.kids[2]) < 14 \/ t.kids[2].o = "to")
       ELSE IF l = 13 THEN TopLevel(t.kids[1]) < 13 /\ TopLevel(t.kids[2]) <= 13
       ELSE TopLevel(t.kids[1]) <= l /\ TopLevel(t.kids[2]) < l

Inv == status = "done" => Len(vals) = 1 /\ Spell(vals[1]) = text /\ Obeys(vals[1])
==============================================================================
