------------------------------- MODULE Suspect -------------------------------
(* Expressions and conditions that probably do not mean what they say.        *)
(* A case is a statement: [k, texts, cases, rnd] where k is                    *)
(*   "value"   an expression                       texts: one                  *)
(*   "if"      a chain of conditions               texts: one for each arm     *)
(*   "for"     the condition of a counting loop    texts: one                  *)
(*   "while"   the condition of any other loop     texts: one                  *)
(*   "switch"  what is switched on                 texts: one                  *)
(*   "case"    the one value of a case of a switch  texts: one                 *)
(*   "rand"    switch(rand(rnd[1], rnd[2])), with cases, each a sequence of    *)
(*             ranges [lo, hi] counted in halves, and whether there is an else *)
(* The texts are token sequences, which the machine of Expr.tla groups one     *)
(* after the other; each tree is then looked through.                          *)
EXTENDS Expr

VARIABLES nth, finds
svars == <<cid, text, pos, want, vals, ops, status, nth, finds>>

Consts == {"0", "1", "2", "0.5", "null", "\"\"", "\"s\"", "/datum"}
Falsy == {"0", "null", "\"\""}
New == {"new /datum()"}
OfUnknown == {"\"[a]\""}

(* May: the values the tree can have as a truth.  Open: everything in it is    *)
(* constant, whose values are not worked out here.                             *)
RECURSIVE Fixed(_)
Fixed(t) == CASE t.k = "at" -> t.o \in Consts
              [] t.k \in {"pre", "bin", "if", "paren"} -> ~(t.o \in {"++", "--", "&", "*"} /\ t.k = "pre") /\ ~(t.k = "bin" /\ Level(t.o) = 13) /\ \A i \in 1..Len(t.kids) : Fixed(t.kids[i])
              [] OTHER -> FALSE
Both == {TRUE, FALSE}
RECURSIVE May(_)
May(t) ==
  CASE t.k = "at" -> IF t.o \in Falsy THEN {FALSE} ELSE IF t.o \in Consts \cup New THEN {TRUE} ELSE Both
    [] t.k = "paren" -> May(t.kids[1])
    [] t.k = "pre" /\ t.o = "!" -> {~b : b \in May(t.kids[1])}
    [] t.k = "bin" /\ t.o = "&&" -> {x /\ y : x \in May(t.kids[1]), y \in May(t.kids[2])}
    [] t.k = "bin" /\ t.o = "||" -> {x \/ y : x \in May(t.kids[1]), y \in May(t.kids[2])}
    [] t.k = "bin" /\ t.o = "=" -> May(t.kids[2])
    [] t.k = "if" -> UNION {May(t.kids[IF c THEN 2 ELSE 3]) : c \in May(t.kids[1])}
    [] t.k = "istr" -> {TRUE}        \* always printed with some text of its own
    [] t.k = "call" /\ t.o = "list(" -> {TRUE}
    [] OTHER -> Both
(* Must: what is plain enough to be reported: "t", "f" or "u".                 *)
Tr(b) == IF b THEN "t" ELSE "f"
RECURSIVE Must(_)
Must(t) ==
  CASE t.k \in {"at", "istr", "call"} -> IF Cardinality(May(t)) = 1 THEN Tr(CHOOSE b \in May(t) : TRUE) ELSE "u"
    [] t.k = "paren" -> Must(t.kids[1])
    [] t.k = "pre" /\ t.o = "!" -> LET m == Must(t.kids[1]) IN IF m = "u" THEN m ELSE Tr(m = "f")
    [] t.k = "bin" /\ t.o \in {"&&", "||"} ->
         LET l == Must(t.kids[1]) r == Must(t.kids[2]) IN
         IF l = "u" \/ r = "u" THEN "u" ELSE Tr(IF t.o = "&&" THEN l = "t" /\ r = "t" ELSE l = "t" \/ r = "t")
    [] t.k = "bin" /\ t.o = "=" /\ t.kids[2].k = "at" -> Must(t.kids[2])
    [] t.k = "if" -> LET c == Must(t.kids[1]) IN IF c = "u" THEN c ELSE Must(t.kids[IF c = "t" THEN 2 ELSE 3])
    [] OTHER -> "u"

(* A condition that does not depend on anything.                               *)
Literal(t) == t.k = "at" /\ t.o \in Consts
Compares == {"==", "!=", "<>", "<", ">", "<=", ">=", "&&", "||"}
MustStatic(t) == Literal(t) \/ (t.k = "bin" /\ t.o \in Compares /\ Literal(t.kids[1]) /\ Literal(t.kids[2]))
MayStatic(t) == Fixed(t)

(* Operators next to an operand without brackets between.                      *)
RECURSIVE Around(_)
Around(t) == IF t.k \in {"pre", "post"} THEN {t.o} \cup Around(t.kids[1])
             ELSE IF t.k \in {"field", "idx"} THEN Around(t.kids[1]) ELSE {}
F(k, must, os) == [k |-> k, must |-> must, os |-> os]
Left(t) ==      \* what stands on the left of an `in`
  CASE t.k = "bin" -> <<F("in", TRUE, {t.o})>>
    [] t.k = "if" -> <<F("in", TRUE, {"ternary"})>>
    [] Around(t) # {} -> <<F("in", t.k \in {"pre", "post"}, Around(t))>>
    [] OTHER -> <<>>
RECURSIVE Looks(_)
Looks(t) ==
  Flatten([i \in 1..Len(t.kids) |-> Looks(t.kids[i])])
  \o (IF t.k = "bin" /\ t.o = "in" THEN Left(t.kids[1]) ELSE <<>>)
  \o (IF t.k = "bin" /\ t.o \in {"&", "|", "^"} /\ "!" \in Around(t.kids[1])
      THEN <<F("bit", t.kids[1].k = "pre" /\ t.kids[1].o = "!", {t.o})>> ELSE <<>>)

RECURSIVE Ored(_)      \* within brackets
Ored(t) == (t.k = "bin" /\ t.o = "||") \/ (t.k = "paren" /\ Ored(t.kids[1]))

C == Cases[cid]
Determined(t, yes, no) ==
  LET m == Must(t) IN
  IF m # "u" THEN <<F(IF m = "t" THEN yes ELSE no, TRUE, {})>>
  ELSE IF Fixed(t) THEN <<F(yes, FALSE, {}), F(no, FALSE, {})>>
  ELSE IF Cardinality(May(t)) = 1 THEN <<F(IF May(t) = {TRUE} THEN yes ELSE no, FALSE, {})>> ELSE <<>>
Static(t) == IF MustStatic(t) THEN <<F("static", TRUE, {})>> ELSE IF MayStatic(t) THEN <<F("static", FALSE, {})>> ELSE <<>>
Judge(t) ==
  Looks(t) \o
  CASE C.k = "if" -> Determined(t, "if true", "if false") \o Static(t)
    [] C.k = "for" -> Determined(t, "loop true", "loop false") \o Static(t)
    [] C.k = "switch" -> Static(t)
    [] C.k = "case" -> IF t.k = "bin" /\ t.o = "||" THEN <<F("or", TRUE, {})>> ELSE IF Ored(t) THEN <<F("or", FALSE, {})>> ELSE <<>>
    [] OTHER -> <<>>

SInit ==
  \E i \in 1..Len(Cases) :
    /\ cid = i /\ nth = 1 /\ finds = <<>>
    /\ text = (IF Cases[i].texts = <<>> THEN <<>> ELSE Cases[i].texts[1])
    /\ pos = 1 /\ want = "operand" /\ vals = <<>> /\ ops = <<>>
    /\ status = (IF Cases[i].texts = <<>> THEN "all" ELSE "run")

Group == status = "run" /\ Step /\ UNCHANGED <<nth, finds>>
Look ==
  /\ status = "done"
  /\ finds' = Append(finds, Judge(vals[1]))
  /\ nth' = nth + 1
  /\ IF nth = Len(C.texts) THEN status' = "all" /\ UNCHANGED <<cid, text, pos, want, vals, ops>>
     ELSE /\ text' = C.texts[nth + 1] /\ pos' = 1 /\ want' = "operand" /\ vals' = <<>> /\ ops' = <<>> /\ status' = "run"
          /\ UNCHANGED cid

(* Whole numbers between two halves, and which of them the cases leave out.    *)
Ceil(h) == IF h % 2 = 0 THEN h \div 2 ELSE (h + 1) \div 2
Floor(h) == h \div 2
Outside(rg) == Floor(rg[2]) < C.rnd[1] \/ Ceil(rg[1]) > C.rnd[2]
Hollow(rg) == Floor(rg[2]) < Ceil(rg[1])
Covered(n) == \E i \in 1..Len(C.cases) : \E j \in 1..Len(C.cases[i]) : LET rg == C.cases[i][j] IN Ceil(rg[1]) <= n /\ n <= Floor(rg[2])
Missing == {n \in C.rnd[1]..C.rnd[2] : ~Covered(n)}
CaseFinds(i) == Flatten([j \in 1..Len(C.cases[i]) |->
  IF Hollow(C.cases[i][j]) THEN <<F("never", FALSE, {})>> ELSE IF Outside(C.cases[i][j]) THEN <<F("never", TRUE, {})>> ELSE <<>>])
SwitchFinds == IF C.els \/ Missing = {} THEN <<>> ELSE <<F("gap", TRUE, {ToString(CHOOSE n \in Missing : \A m \in Missing : n <= m)})>>

SReport ==
  /\ status = "all"
  /\ Emit([cid |-> cid, finds |-> IF C.k = "rand" THEN <<SwitchFinds>> \o [i \in 1..Len(C.cases) |-> CaseFinds(i)] ELSE finds])
  /\ status' = "reported" /\ UNCHANGED <<cid, text, pos, want, vals, ops, nth, finds>>

SNext == Group \/ Look \/ SReport

(* What must be reported is true.                                              *)
RECURSIVE Sound(_)
Sound(t) == /\ Must(t) # "u" => May(t) = {Must(t) = "t"}
            /\ MustStatic(t) => MayStatic(t)
            /\ \A i \in 1..Len(t.kids) : Sound(t.kids[i])
SInv == status = "done" => Inv /\ Sound(vals[1])
==============================================================================
