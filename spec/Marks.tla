--------------------------------- MODULE Marks ---------------------------------
(* What the editor marks in a text without understanding it: regions which    *)
(* fold, and colours, which may be picked anew.  Reads the text character by  *)
(* character.                                                                  *)
EXTENDS VCommon

VARIABLES cid, status, at, line, starts, folds, colours, shown
vars == <<cid, status, at, line, starts, folds, colours, shown>>

C == Cases[cid]
T == C.text
Ch(i) == IF i >= 1 /\ i <= Len(T) THEN T[i] ELSE "end"
Space == {" ", "\t", "\n", "\r"}
White(i) == Ch(i) \in Space

------------------------------------------------------------------------------
(* Words at a position                                                         *)
Says(i, w) == \A k \in 1..Len(w) : Ch(i + k - 1) = w[k]
RECURSIVE Skip(_, _)
Skip(i, S) == IF Ch(i) \in S THEN Skip(i + 1, S) ELSE i

(* A marker is a line comment of its own, with one space at most before it.   *)
Region == <<"#", "r", "e", "g", "i", "o", "n">>
EndRegion == <<"#", "e", "n", "d", "r", "e", "g", "i", "o", "n">>
Marker(i, w) ==
  LET s == Skip(i, {" ", "\t"})
      m == IF Ch(s + 2) = " " THEN s + 3 ELSE s + 2 IN
  /\ Says(s, <<"/", "/">>) /\ Says(m, w)
  /\ Ch(m + Len(w)) \in Space \cup {"end"}

------------------------------------------------------------------------------
(* Colours                                                                     *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Hexes == Digits \o <<"a", "b", "c", "d", "e", "f">>
HEXES == Digits \o <<"A", "B", "C", "D", "E", "F">>
Hex(c) == IF \E k \in 1..16 : Hexes[k] = c THEN (CHOOSE k \in 1..16 : Hexes[k] = c) - 1
          ELSE IF \E k \in 1..16 : HEXES[k] = c THEN (CHOOSE k \in 1..16 : HEXES[k] = c) - 1 ELSE -1
IsHex(i) == Hex(Ch(i)) >= 0
IsDigit(i) == \E k \in 1..10 : Digits[k] = Ch(i)
RECURSIVE SkipHex(_)
SkipHex(i) == IF IsHex(i) THEN SkipHex(i + 1) ELSE i
RECURSIVE SkipDigit(_)
SkipDigit(i) == IF IsDigit(i) THEN SkipDigit(i + 1) ELSE i
RECURSIVE Decimal(_, _)
Decimal(i, j) == IF i >= j THEN 0 ELSE 10 * Decimal(i, j - 1) + Hex(Ch(j - 1))
No == [end |-> 0, rgba |-> <<>>]

(* A quoted #rgb, #rgba, #rrggbb or #rrggbbaa; other lengths up to eight are  *)
(* strings, but no colours.                                                   *)
HexAt(i) ==
  LET q == Ch(i)
      j == SkipHex(i + 2)
      n == j - (i + 2)
      one(k) == 17 * Hex(Ch(i + 1 + k))
      two(k) == 16 * Hex(Ch(i + 2 * k)) + Hex(Ch(i + 2 * k + 1)) IN
  IF q \notin {"'", "\""} \/ Ch(i + 1) # "#" \/ n < 3 \/ n > 8 \/ Ch(j) # q THEN No
  ELSE [end |-> j + 1,
        rgba |-> CASE n = 3 -> <<one(1), one(2), one(3), 255>> [] n = 4 -> <<one(1), one(2), one(3), one(4)>>
                   [] n = 6 -> <<two(1), two(2), two(3), 255>> [] n = 8 -> <<two(1), two(2), two(3), two(4)>> [] OTHER -> <<>>]

(* rgb( numbers ): spaces after the bracket and the commas, and at the end.   *)
RECURSIVE NumbersFrom(_, _)
NumbersFrom(i, ns) ==
  LET s == Skip(i, Space)
      j == SkipDigit(s)
      all == Append(ns, Decimal(s, j)) IN
  IF j = s \/ j > s + 3 THEN No
  ELSE IF Ch(j) = "," /\ Len(all) < 4 THEN NumbersFrom(j + 1, all)
  ELSE LET e == Skip(j, Space) IN
       IF Ch(e) = ")" /\ Len(all) \in {3, 4} THEN [end |-> e + 1, rgba |-> IF \E k \in 1..Len(all) : all[k] > 255 THEN <<>> ELSE IF Len(all) = 3 THEN Append(all, 255) ELSE all] ELSE No
RgbAt(i) == IF Says(i, <<"r", "g", "b", "(">>) THEN NumbersFrom(i + 4, <<>>) ELSE No
ColourAt(i) == LET h == HexAt(i) IN IF h.end # 0 THEN h ELSE RgbAt(i)

------------------------------------------------------------------------------
(* A colour picked in place of another is written as that one was: with its   *)
(* quotes, short where it was short and the new one can be, with its opacity  *)
(* where it had one or the new one needs one.                                 *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digits[n + 1] ELSE Dec(n \div 10) \o Digits[1 + (n % 10)]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Comma(_)
Comma(s) == IF Len(s) = 1 THEN Dec(s[1]) ELSE Dec(Head(s)) \o ", " \o Comma(Tail(s))
Written(c, new) ==
  LET old == SubSeq(T, c.from, c.end - 1)
      n == Len(old)
      hexed == Head(old) # "r"
      alpha == new[4] # 255 \/ (IF hexed THEN n \in {7, 11} ELSE Cardinality({k \in 1..n : old[k] = ","}) = 3)
      short == n <= 7 /\ \A k \in 1..4 : new[k] % 17 = 0
      digits == IF alpha THEN new ELSE SubSeq(new, 1, 3) IN
  IF ~hexed THEN "rgb(" \o Comma(digits) \o ")"
  ELSE Head(old) \o "#" \o Cat([k \in 1..Len(digits) |-> IF short THEN Hexes[1 + digits[k] \div 17] ELSE Hexes[1 + digits[k] \div 16] \o Hexes[1 + (digits[k] % 16)]]) \o Head(old)

------------------------------------------------------------------------------
Init == cid \in 1..Len(Cases) /\ status = "lines" /\ at = 1 /\ line = 0 /\ starts = <<>> /\ folds = <<>> /\ colours = <<>> /\ shown = <<>>

RECURSIVE NextLine(_)
NextLine(i) == IF Ch(i) \in {"\n", "end"} THEN i + 1 ELSE NextLine(i + 1)
(* The end of a region belongs to the last begun and not yet ended.           *)
Fold ==
  /\ status = "lines" /\ at <= Len(T)
  /\ starts' = IF Marker(at, Region) THEN Append(starts, line) ELSE IF Marker(at, EndRegion) /\ starts # <<>> THEN Front(starts) ELSE starts
  /\ folds' = IF ~Marker(at, Region) /\ Marker(at, EndRegion) /\ starts # <<>> THEN Append(folds, <<Last(starts), line>>) ELSE folds
  /\ at' = NextLine(at) /\ line' = line + 1
  /\ UNCHANGED <<cid, status, colours, shown>>
Folded == status = "lines" /\ at > Len(T) /\ status' = "colours" /\ at' = 1 /\ UNCHANGED <<cid, line, starts, folds, colours, shown>>

Colour ==
  /\ status = "colours" /\ at <= Len(T)
  /\ LET c == ColourAt(at) IN
     IF c.end = 0 THEN at' = at + 1 /\ UNCHANGED colours
     ELSE at' = c.end /\ colours' = IF c.rgba = <<>> THEN colours ELSE Append(colours, [from |-> at, end |-> c.end, rgba |-> c.rgba])
  /\ UNCHANGED <<cid, status, line, starts, folds, shown>>
Coloured == status = "colours" /\ at > Len(T) /\ status' = "pick" /\ at' = 1 /\ UNCHANGED <<cid, line, starts, folds, colours, shown>>

Pick ==
  /\ status = "pick" /\ at <= Len(C.picks) /\ colours # <<>>
  /\ LET c == colours[1 + (C.picks[at].n % Len(colours))] IN shown' = Append(shown, [n |-> 1 + (C.picks[at].n % Len(colours)), text |-> Written(c, C.picks[at].rgba)])
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, line, starts, folds, colours>>
Report ==
  /\ status = "pick" /\ (at > Len(C.picks) \/ colours = <<>>)
  /\ Emit([cid |-> cid, folds |-> folds, colours |-> colours, shown |-> shown])
  /\ status' = "done" /\ UNCHANGED <<cid, at, line, starts, folds, colours, shown>>

Next == Fold \/ Folded \/ Colour \/ Coloured \/ Pick \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Regions are nested or apart; colours do not overlap.                       *)
Inv ==
  /\ \A i, j \in 1..Len(folds) : i < j => folds[i][2] < folds[j][1] \/ (folds[j][1] < folds[i][1] /\ folds[i][2] < folds[j][2])
  /\ \A i, j \in 1..Len(colours) : i < j => colours[i].end <= colours[j].from
  /\ \A i \in 1..Len(colours) : \A k \in 1..4 : colours[i].rgba[k] \in 0..255
Terminates == <>(status = "done")
===============================================================================
