-------------------------------- MODULE Lexer --------------------------------
(* The DM lexer as a machine that repeatedly takes one lexeme off the front   *)
(* of the text.  Its state is the position, whether a line break has just     *)
(* been escaped, the kind of directive the line is in, and the stack of       *)
(* interpolations whose strings resume at the matching bracket.               *)
(*                                                                            *)
(* Mode "gen": texts are all concatenations of at most MaxFrags members of    *)
(* Frags.  Mode "cases": texts come from the case file.                       *)
EXTENDS VCommon

CONSTANTS Mode, Frags, MaxFrags

VARIABLES cid, text, pos, lc, skip, dir, interp, toks, errs, status

vars == <<cid, text, pos, lc, skip, dir, interp, toks, errs, status>>

At(p) == IF p <= Len(text) THEN SubSeq(text, p, p) ELSE ""
Sub(a, b) == IF a > b THEN "" ELSE SubSeq(text, a, b)
Starts(p, s) == Sub(p, Min2(p + Len(s) - 1, Len(text))) = s

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Hex == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
IdentStart == Lower \cup Upper \cup {"_"}
IdentChar == IdentStart \cup Digits
Blank == {" ", "\t"}

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
  [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
  [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
  [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15 [] OTHER -> 99

Puncts == {"\t", "\n", " ", "!", "!=", "#", "##", "%", "%%", "%%=", "%=", "&", "&&", "&&=", "&=", "(", ")", "*", "**", "*=",
  "+", "++", "+=", ",", "-", "--", "-=", ".", "..", "...", "/", "/*", "//", "/=", ":", "::", ":=", ";", "<", "<<", "<<=", "<=", "<=>",
  "<>", "=", "==", ">", ">=", ">>", ">>=", "?", "?.", "?:", "?[", "[", "]", "^", "^=", "{", "{\"", "|", "|=", "||", "||=", "}",
  "~", "~!", "~=", "\"", "'"}

(* Longest punctuation mark at p, or "". *)
Punct(p) == IF p > Len(text) THEN ""
  ELSE IF p + 2 <= Len(text) /\ Sub(p, p + 2) \in Puncts THEN Sub(p, p + 2)
  ELSE IF p + 1 <= Len(text) /\ Sub(p, p + 1) \in Puncts THEN Sub(p, p + 1)
  ELSE IF At(p) \in Puncts THEN At(p) ELSE ""

RECURSIVE Advance(_, _, _)     \* line and column of position b, given those of a
Advance(loc, a, b) ==
  IF a >= b THEN loc
  ELSE Advance(IF At(a) = "\n" THEN <<loc[1] + 1, 1>> ELSE <<loc[1], loc[2] + 1>>, a + 1, b)

RECURSIVE Leading(_)           \* only blanks before p on its line
Leading(p) == p = 1 \/ At(p - 1) = "\n" \/ (At(p - 1) \in Blank /\ Leading(p - 1))

------------------------------------------------------------------------------
(* Comments. *)
RECURSIVE BlockEnd(_, _)       \* position after the close, 0 if none; -1 if the text leaves it open
BlockEnd(p, depth) ==
  IF p + 1 > Len(text) THEN 0
  ELSE IF Sub(p, p + 1) = "*/" THEN
    IF depth = 1 THEN p + 2
    ELSE IF At(p + 2) = "*" THEN -1 ELSE BlockEnd(p + 2, depth - 1)
  ELSE IF Sub(p, p + 1) = "/*" THEN IF At(p + 2) = "/" THEN -1 ELSE BlockEnd(p + 2, depth + 1)
  ELSE BlockEnd(p + 1, depth)

RECURSIVE LineEnd(_, _, _)     \* [end, cont]: the line break ending the comment, or Len+1
LineEnd(p, esc, cont) ==
  IF p > Len(text) THEN [end |-> p, cont |-> cont]
  ELSE IF At(p) = "\r" THEN LineEnd(p + 1, esc, cont)
  ELSE IF esc THEN LineEnd(p + 1, FALSE, cont \/ At(p) = "\n")
  ELSE IF At(p) = "\n" THEN [end |-> p, cont |-> cont]
  ELSE LineEnd(p + 1, At(p) = "\\", cont)

RECURSIVE Strip(_, _)          \* text of a..b without line breaks
Strip(a, b) == IF a > b THEN "" ELSE (IF At(a) \in {"\r", "\n"} THEN "" ELSE At(a)) \o Strip(a + 1, b)

------------------------------------------------------------------------------
(* Strings: from p up to the terminator or an opening bracket. The text of a   *)
(* #warn or #error ends with its line, and brackets mean nothing in it.        *)
RECURSIVE SkipBlank(_)
SkipBlank(p) == IF At(p) \in Blank THEN SkipBlank(p + 1) ELSE p
RECURSIVE SkipCR(_)
SkipCR(p) == IF At(p) = "\r" THEN SkipCR(p + 1) ELSE p

RECURSIVE ReadStr(_, _, _)
ReadStr(p, end, acc) ==
  IF p > Len(text) THEN [np |-> p, s |-> acc, r |-> IF end = "\n" THEN "end" ELSE "eof"]
  ELSE IF Starts(p, end) THEN [np |-> p + Len(end), s |-> acc, r |-> "end"]
  ELSE IF At(p) = "[" /\ end # "\n" THEN [np |-> p + 1, s |-> acc, r |-> "interp"]
  ELSE IF At(p) = "\\" THEN
    IF p = Len(text) THEN ReadStr(p + 1, end, acc)
    ELSE IF At(p + 1) \in {"\n", "\r"} THEN
      LET q == SkipCR(p + 1)
          n == IF At(q) = "\n" THEN SkipBlank(q + 1) ELSE SkipBlank(q) IN
      IF At(n) \in {"\n", "\r"} THEN [np |-> n, s |-> acc, r |-> "open"] ELSE ReadStr(n, end, acc)
    ELSE ReadStr(p + 2, end, acc \o "\\" \o At(p + 1))
  ELSE ReadStr(p + 1, end, acc \o At(p))

RECURSIVE ReadRes(_, _)
ReadRes(p, acc) ==
  IF p > Len(text) THEN [np |-> p, s |-> acc, ok |-> FALSE]
  ELSE IF At(p) = "'" THEN [np |-> p + 1, s |-> acc, ok |-> TRUE]
  ELSE IF At(p) = "\\" THEN IF p = Len(text) THEN [np |-> p + 1, s |-> acc, ok |-> FALSE]
                            ELSE ReadRes(p + 2, acc \o At(p + 1))
  ELSE ReadRes(p + 1, acc \o At(p))

RECURSIVE Find(_, _)           \* first occurrence of s at or after p, 0 if none
Find(p, s) == IF p + Len(s) - 1 > Len(text) THEN 0 ELSE IF Sub(p, p + Len(s) - 1) = s THEN p ELSE Find(p + 1, s)

RawBody(p, term) ==
  LET q == Find(p, term) IN
  IF q = 0 THEN [np |-> Len(text) + 1, s |-> Sub(p, Len(text)), e |-> "raw"]
  ELSE [np |-> q + Len(term), s |-> Sub(p, q - 1), e |-> ""]
ReadRaw(p) ==                  \* p: just after the @
  IF p > Len(text) \/ At(p) = "\n" THEN [np |-> p + 1, s |-> "", e |-> "raw"]
  ELSE IF At(p) = "(" THEN
    LET q == Find(p + 1, ")") IN
    IF q = 0 THEN [np |-> Len(text) + 1, s |-> "", e |-> "raw"]
    ELSE IF q = p + 1 THEN [np |-> q + 1, s |-> "", e |-> "raw"]
    ELSE RawBody(q + 1, Sub(p + 1, q - 1))
  ELSE IF Starts(p, "{\"") THEN RawBody(p + 2, "\"}")
  ELSE RawBody(p + 1, At(p))

------------------------------------------------------------------------------
(* Numbers. *)
RECURSIVE Scan(_, _)           \* st: [buf, int, exp, radix]
Scan(p, st) ==
  LET c == At(p) IN
  IF c = "_" THEN Scan(p + 1, st)
  ELSE IF c \in {".", "e", "E"} THEN
    Scan(p + 1, [st EXCEPT !.buf = @ \o c, !.int = @ /\ st.radix = 16,
                           !.exp = IF st.radix = 16 THEN @ ELSE @ \/ c # "."])
  ELSE IF c \in {"+", "-"} /\ st.exp THEN Scan(p + 1, [st EXCEPT !.buf = @ \o c])
  ELSE IF c = "#" THEN
    IF Starts(p + 1, "INF") THEN [np |-> p + 4, st |-> [st EXCEPT !.buf = "inf", !.int = FALSE]]
    ELSE IF Starts(p + 1, "IND") THEN [np |-> p + 4, st |-> [st EXCEPT !.buf = "nan", !.int = FALSE]]
    ELSE [np |-> p, st |-> [st EXCEPT !.buf = "open"]]
  ELSE IF c \in (IF st.radix = 16 THEN Hex ELSE Digits)
       THEN Scan(p + 1, [st EXCEPT !.buf = @ \o c, !.exp = FALSE])
  ELSE [np |-> p, st |-> st]

Number(p) ==
  IF At(p) = "0" /\ At(p + 1) = "x" THEN Scan(p + 2, [buf |-> "0", int |-> TRUE, exp |-> FALSE, radix |-> 16])
  ELSE Scan(p + 1, [buf |-> At(p), int |-> TRUE, exp |-> FALSE, radix |-> IF At(p) = "0" THEN 8 ELSE 10])

RECURSIVE AllIn(_, _)
AllIn(s, S) == s = "" \/ (SubSeq(s, 1, 1) \in S /\ AllIn(Tail(s), S))
RECURSIVE Value(_, _, _)
Value(s, radix, acc) == IF s = "" THEN acc ELSE Value(Tail(s), radix, acc * radix + DigitVal(SubSeq(s, 1, 1)))

RECURSIVE SkipDigits(_)
SkipDigits(s) == IF s # "" /\ SubSeq(s, 1, 1) \in Digits THEN SkipDigits(Tail(s)) ELSE s
First(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
ExpOk(s) == s = "" \/ (First(s) \in {"e", "E"} /\
  LET t == Tail(s)
      u == IF First(t) \in {"+", "-"} THEN Tail(t) ELSE t IN
  First(u) \in Digits /\ SkipDigits(u) = "")
FloatOk(s) == \/ s \in {"inf", "nan"}
              \/ LET a == SkipDigits(s) IN
                 IF First(a) = "." THEN ExpOk(SkipDigits(Tail(a))) ELSE ExpOk(a)

------------------------------------------------------------------------------
Init ==
  /\ \/ /\ Mode = "gen" /\ cid = 0
        /\ \E n \in 0..MaxFrags : \E f \in [1..n -> Frags] : text = FoldSeqL(LAMBDA a, b : a \o b, "", f)
     \/ Mode = "cases" /\ cid \in 1..Len(Cases) /\ text = Cases[cid].text
  /\ pos = 1 /\ lc = <<1, 1>> /\ skip = 0 /\ dir = "none" /\ interp = <<>> /\ toks = <<>> /\ errs = <<>> /\ status = "run"

Move(np) == /\ pos' = np /\ lc' = Advance(lc, pos, np)
            /\ UNCHANGED <<cid, text>>
Crossed(np) == \E q \in pos..(np - 1) : At(q) = "\n"
NewDir(np, d) == IF Crossed(np) THEN "none" ELSE d
Tok(k, s) == [k |-> k, s |-> s, l |-> lc[1], c |-> lc[2]]
Give(t, np) == Move(np) /\ toks' = Append(toks, t)
Quiet == UNCHANGED <<errs, status>>
Diag(k) == errs' = Append(errs, k) /\ UNCHANGED status
Open == status' = "open" /\ UNCHANGED <<cid, text, pos, lc, skip, dir, interp, toks, errs>>

StrTok(k0, k1, r) ==       \* the token kind by how the string began and ended
  IF r.r = "interp" THEN (IF k0 = "resume" THEN "ip" ELSE "ib") ELSE (IF k0 = "resume" THEN "ie" ELSE k1)

Str(p, end, how, base) ==
  LET r == ReadStr(p, end, "") IN
  IF r.r = "open" THEN Open
  ELSE /\ Give(Tok(StrTok(how, "str", r), r.s), r.np)
       /\ interp' = IF r.r = "interp" THEN Append(base, [end |-> end, depth |-> 1]) ELSE base
       /\ skip' = 0 /\ dir' = NewDir(r.np, IF dir = "stringy" THEN "none" ELSE dir)
       /\ IF r.r = "eof" THEN Diag("string") ELSE Quiet

Simple(t, np) == Give(t, np) /\ skip' = 0 /\ dir' = NewDir(np, dir) /\ UNCHANGED interp /\ Quiet
Skip(np, s) == Move(np) /\ skip' = s /\ dir' = NewDir(np, dir) /\ UNCHANGED <<toks, interp>>

Block ==
  LET e == BlockEnd(pos + 2, 1)
      doc == At(pos + 2) \in {"*", "!"}
      a == IF At(pos + 2) = "!" THEN pos + 3 ELSE pos + 2
      body == Sub(a, e - 3) IN
  IF e = -1 THEN Open
  ELSE IF e = 0 THEN status' = "eofcomment" /\ errs' = Append(errs, "comment") /\ UNCHANGED <<cid, text, pos, lc, skip, dir, interp, toks>>
  ELSE IF doc /\ body # "" THEN
    Simple(Tok("doc", (IF At(pos + 2) = "!" THEN "b!" ELSE "b*") \o body), e)
  ELSE Skip(e, 0) /\ Quiet

LineC ==
  LET r == LineEnd(pos + 2, FALSE, FALSE)
      doc == At(pos + 2) \in {"/", "!"} IN
  /\ IF doc THEN Give(Tok("doc", (IF At(pos + 2) = "!" THEN "l!" ELSE "l/") \o Strip(pos + 3, r.end - 1)), r.end)
     ELSE Move(r.end) /\ toks' = toks
  /\ skip' = 0 /\ dir' = NewDir(r.end, dir) /\ UNCHANGED interp
  /\ IF r.cont THEN Diag("backslash") ELSE Quiet

Num ==
  LET n == Number(pos)
      b == n.st.buf IN
  IF b = "open" \/ Len(b) > 30 THEN Open
  ELSE IF ~n.st.int THEN
    IF FloatOk(b) THEN Simple(Tok("float", b), n.np)
    ELSE Give(Tok("float", "0"), n.np) /\ skip' = 0 /\ dir' = dir /\ UNCHANGED interp /\ Diag("badfloat")
  ELSE IF n.st.radix = 10 /\ Len(b) > 9 THEN Simple(Tok("bigint", b), n.np)
  ELSE IF (n.st.radix = 16 /\ Len(b) > 8) \/ (n.st.radix = 8 /\ Len(b) > 10) THEN Open
  ELSE IF \E i \in 1..Len(b) : DigitVal(SubSeq(b, i, i)) >= n.st.radix
  THEN Give(Tok("int", "0"), n.np) /\ skip' = 0 /\ dir' = dir /\ UNCHANGED interp /\ Diag("badint")
  ELSE Simple(Tok("int", ToString(Value(b, n.st.radix, 0))), n.np)

RECURSIVE IdEnd(_)
IdEnd(p) == IF At(p) \in IdentChar THEN IdEnd(p + 1) ELSE p
Ident ==
  LET e == IdEnd(pos)
      s == Sub(pos, e - 1) IN
  /\ Give(IF s = "in" THEN Tok("punct", "in") ELSE Tok(IF At(e) \in Blank THEN "idw" ELSE "id", s), e)
  /\ skip' = 0 /\ UNCHANGED interp /\ Quiet
  /\ dir' = IF dir = "hash" THEN IF s \in {"warn", "error"} THEN "stringy" ELSE "ordinary" ELSE dir

Step ==
  /\ status = "run"
  /\ LET c == At(pos) IN
     IF c = "" THEN
       /\ toks' = Append(toks, Tok("punct", "\n")) /\ status' = "done"
       /\ UNCHANGED <<cid, text, pos, lc, skip, dir, interp, errs>>
     ELSE IF c = "\r" THEN Skip(pos + 1, skip) /\ Quiet
     ELSE IF c \in Blank /\ (skip > 0 \/ ~Leading(pos)) THEN Skip(pos + 1, skip) /\ Quiet
     ELSE IF c = "\n" /\ skip = 2 THEN Skip(pos + 1, 1) /\ Quiet
     ELSE IF dir = "stringy" THEN Str(pos, "\n", "begin", interp)
     ELSE LET p == Punct(pos) IN
       CASE p = "#" /\ dir = "none" -> /\ Give(Tok("punct", "#"), pos + 1) /\ dir' = "hash" /\ skip' = 0
                                       /\ UNCHANGED interp /\ Quiet
         [] p = "/*" -> Block
         [] p = "//" -> LineC
         [] p = "'" -> LET r == ReadRes(pos + 1, "") IN
                       /\ Give(Tok("res", r.s), r.np) /\ skip' = 0 /\ dir' = NewDir(r.np, dir) /\ UNCHANGED interp
                       /\ IF r.ok THEN Quiet ELSE Diag("resource")
         [] p = "\"" -> Str(pos + 1, "\"", "begin", interp)
         [] p = "{\"" -> Str(pos + 2, "\"}", "begin", interp)
         [] p \in {"[", "?["} ->
              /\ Give(Tok("punct", p), pos + Len(p)) /\ skip' = 0 /\ dir' = dir /\ Quiet
              /\ interp' = IF interp = <<>> THEN interp
                           ELSE [interp EXCEPT ![Len(interp)].depth = @ + 1]
         [] p = "]" /\ interp # <<>> ->
              IF Last(interp).depth = 1 THEN Str(pos + 1, Last(interp).end, "resume", Front(interp))
              ELSE /\ Give(Tok("punct", "]"), pos + 1) /\ skip' = 0 /\ dir' = dir /\ Quiet
                   /\ interp' = [interp EXCEPT ![Len(interp)].depth = @ - 1]
         [] p # "" /\ ~(p \in {"/*", "//", "'", "\"", "{\"", "[", "?["}) /\ ~(p = "#" /\ dir = "none") /\ ~(p = "]" /\ interp # <<>>) ->
              Simple(Tok("punct", p), pos + Len(p))
         [] p = "" /\ c \in Digits -> Num
         [] p = "" /\ c \in IdentStart -> Ident
         [] p = "" /\ c = "\\" -> Skip(pos + 1, 2) /\ Quiet
         [] p = "" /\ c = "@" -> LET r == ReadRaw(pos + 1) IN
              /\ Give(Tok("str", r.s), Min2(r.np, Len(text) + 1)) /\ skip' = 0 /\ dir' = NewDir(r.np, dir) /\ UNCHANGED interp
              /\ IF r.e = "" THEN Quiet ELSE Diag(r.e)
         [] OTHER -> Skip(pos + 1, 0) /\ (IF errs # <<>> /\ Last(errs) = "illegal" THEN Quiet ELSE Diag("illegal"))

Report ==
  /\ status \in {"done", "open", "eofcomment"}
  /\ Emit([cid |-> cid, status |-> status, text |-> IF Mode = "gen" THEN text ELSE "", toks |-> toks, errs |-> errs])
  /\ status' = "reported" /\ UNCHANGED <<cid, text, pos, lc, skip, dir, interp, toks, errs>>

Next == Step \/ Report

------------------------------------------------------------------------------
(* Progress, and positions that only ever move forward. *)
Before(a, b) == a.l < b.l \/ (a.l = b.l /\ a.c < b.c)
Inv == /\ pos <= Len(text) + 1
       /\ \A i \in 1..(Len(toks) - 1) : Before(toks[i], toks[i + 1])
       /\ lc[1] >= 1 /\ lc[2] >= 1
Progress == [][status = "run" => (pos' > pos \/ status' # "run")]_vars
==============================================================================
