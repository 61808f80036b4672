-------------------------------- MODULE Smooth --------------------------------
(* Icon smoothing.  A case holds the kinds of objects (their effective values),*)
(* the tiles row by row from the top (sequences of kinds), and which of the    *)
(* three smoothing systems is on.  The machine walks over the tiles and works  *)
(* out the pieces every object is drawn from.                                  *)
EXTENDS VCommon

VARIABLES cid, status, at, out
vars == <<cid, status, at, out>>

C == Cases[cid]
Width == Len(C.rows[1])
Height == Len(C.rows)
On(f, o) == Has(o.flags, f)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

------------------------------------------------------------------------------
Dir(d) ==
  CASE d = "n" -> <<0, -1>> [] d = "s" -> <<0, 1>> [] d = "e" -> <<1, 0>> [] d = "w" -> <<-1, 0>>
    [] d = "nw" -> <<-1, -1>> [] d = "ne" -> <<1, -1>> [] d = "sw" -> <<-1, 1>> [] d = "se" -> <<1, 1>>
(* The two sides a corner lies between: the vertical one first. *)
Sides(d) == CASE d = "nw" -> <<"n", "w">> [] d = "ne" -> <<"n", "e">> [] d = "sw" -> <<"s", "w">> [] d = "se" -> <<"s", "e">>
Opposite(d) == CASE d = "nw" -> "se" [] d = "ne" -> "sw" [] d = "sw" -> "ne" [] d = "se" -> "nw" [] d = "n" -> "s" [] d = "s" -> "n" [] d = "e" -> "w" [] d = "w" -> "e"
(* An eighth of a turn to the left or right. *)
Left(d) == CASE d = "nw" -> "w" [] d = "ne" -> "n" [] d = "sw" -> "s" [] d = "se" -> "e" [] d = "n" -> "nw" [] d = "w" -> "sw" [] d = "s" -> "se" [] d = "e" -> "ne"
Right(d) == CASE d = "nw" -> "n" [] d = "ne" -> "e" [] d = "sw" -> "w" [] d = "se" -> "s" [] d = "n" -> "ne" [] d = "e" -> "se" [] d = "s" -> "sw" [] d = "w" -> "nw"
Corners == <<"nw", "ne", "sw", "se">>
Bit(d) == CASE d = "n" -> 1 [] d = "s" -> 2 [] d = "e" -> 4 [] d = "w" -> 8 [] d = "ne" -> 16 [] d = "se" -> 32 [] d = "sw" -> 64 [] d = "nw" -> 128

Within(x, y) == x \in 1..Width /\ y \in 1..Height
There(x, y, d) == <<x + Dir(d)[1], y + Dir(d)[2]>>
(* The objects next to a place; <<>> outside the map. *)
Around(x, y, d) ==
  LET p == There(x, y, d) IN IF Within(p[1], p[2]) THEN [i \in 1..Len(C.rows[p[2]][p[1]]) |-> C.kinds[C.rows[p[2]][p[1]][i]]] ELSE <<>>

(* What an object joins with: its own type, or what its list says -- types     *)
(* (and their subtypes) in the oldest system, groups in the others.            *)
JoinsWith(o, n) ==
  IF o.can.k = "same" THEN o.path = n.path
  ELSE IF C.system = "2016" THEN \E i \in 1..Len(o.can.l) : IF On("more", o) THEN Prefix(o.can.l[i], n.path) ELSE o.can.l[i] = n.path
  ELSE \E i \in 1..Len(o.can.l) : Has(n.groups, o.can.l[i])
JoinsAt(o, x, y, d) ==
  IF ~Within(There(x, y, d)[1], There(x, y, d)[2]) THEN On("border", o)
  ELSE LET t == Around(x, y, d) IN \E i \in 1..Len(t) : JoinsWith(o, t[i])
(* Things which could move freely join nothing. *)
Stuck(o) == C.system = "2016" \/ ~o.loose
Junction(o, x, y) ==
  IF ~Stuck(o) THEN {}
  ELSE LET c == {d \in {"n", "s", "e", "w"} : JoinsAt(o, x, y, d)} IN
       c \cup {d \in {"nw", "ne", "sw", "se"} : Sides(d)[1] \in c /\ Sides(d)[2] \in c /\ JoinsAt(o, x, y, d)}

------------------------------------------------------------------------------
(* Pieces: [icon, state, dx, dy] *)
Piece(o, state) == [icon |-> IF o.sicon = "" THEN o.icon ELSE o.sicon, state |-> state, dx |-> o.dx, dy |-> o.dy]
Whole(o) == [icon |-> o.icon, state |-> o.state, dx |-> o.dx, dy |-> o.dy]
Number(c) == CASE c = "nw" -> "1" [] c = "ne" -> "2" [] c = "sw" -> "3" [] c = "se" -> "4"
Corner(j, c) ==
  LET v == Sides(c)[1] h == Sides(c)[2] IN
  Number(c) \o (IF v \in j /\ h \in j THEN (IF c \in j THEN "-f" ELSE "-" \o v \o h)
                ELSE IF v \in j THEN "-" \o v ELSE IF h \in j THEN "-" \o h ELSE "-i")
InCorners(o, j) == [i \in 1..4 |-> Piece(o, Corner(j, Corners[i]))]

(* The corner a junction tucks into: just its two sides, perhaps itself. *)
Tucked(j) == {c \in {"nw", "ne", "sw", "se"} : j \ {c} = {Sides(c)[1], Sides(c)[2]}}

RECURSIVE FirstOpen(_)
FirstOpen(t) == IF t = <<>> THEN <<>> ELSE IF Prefix(<<"turf", "open">>, Head(t).path) THEN <<Head(t)>> ELSE FirstOpen(Tail(t))
(* What shows behind a wall cut off towards d. *)
Behind(o, x, y, c) ==
  IF o.fixed THEN <<Whole(C.space)>>
  ELSE LET d == Opposite(c)
           found == FirstOpen(Around(x, y, d)) \o FirstOpen(Around(x, y, Left(d))) \o FirstOpen(Around(x, y, Right(d))) IN
       <<Whole(IF found = <<>> THEN C.plating ELSE Head(found))>>

Diagonally(o, x, y, j) ==
  IF Tucked(j) = {} THEN InCorners(o, j)
  ELSE LET c == CHOOSE c \in Tucked(j) : TRUE
           name == "d-" \o Opposite(c) IN
       (IF Prefix(<<"turf", "closed", "wall">>, o.path) THEN Behind(o, x, y, c) ELSE <<>>)
       \o <<Piece(o, name), Piece(o, name \o (IF c \in j THEN "-1" ELSE "-0"))>>

RECURSIVE SumBits(_)
SumBits(j) == IF j = {} THEN 0 ELSE LET d == CHOOSE d \in j : TRUE IN Bit(d) + SumBits(j \ {d})
Masked(o, j) == Piece(o, o.base \o "-" \o ToString(SumBits(j)))
MaskedCut(o, j) == Piece(o, o.base \o "-" \o ToString(SumBits(j)) \o "-d")
(* As alternatives. *)
Bitmask(o, x, y, j) ==
  IF o.raw THEN <<<<Whole(o)>>>>
  ELSE IF ~(Prefix(<<"turf", "closed">>, o.path) /\ On("diagonal", o)) THEN <<<<Masked(o, j)>>>>
  ELSE IF Tucked(j) # {} THEN <<Behind(o, x, y, CHOOSE c \in Tucked(j) : TRUE) \o <<MaskedCut(o, j)>>>>
  (* with a single side it is open whether there is anything to cut *)
  ELSE IF Cardinality(j) = 1 THEN <<<<Masked(o, j)>>, Behind(o, x, y, CHOOSE c \in j : TRUE) \o <<MaskedCut(o, j)>>>>
  ELSE <<<<Masked(o, j)>>>>

Alternatives(o, x, y) ==
  LET j == Junction(o, x, y)
      corners == IF On("diagonal", o) THEN <<Diagonally(o, x, y, j)>> ELSE <<InCorners(o, j)>> IN
  CASE C.system = "2016" /\ (On("true", o) \/ On("more", o)) -> corners
    [] C.system = "2020" /\ On("corners", o) -> corners
    [] C.system \in {"2020", "2025"} /\ ~On("corners", o) /\ On("bitmask", o) -> Bitmask(o, x, y, j)
    [] OTHER -> <<<<Whole(o)>>>>

------------------------------------------------------------------------------
Init == cid \in 1..Len(Cases) /\ status = "walk" /\ at = 0 /\ out = <<>>
Walk ==
  /\ status = "walk" /\ at < Width * Height
  /\ LET x == (at % Width) + 1 y == (at \div Width) + 1 t == C.rows[y][x] IN
     out' = out \o [i \in 1..Len(t) |-> [x |-> x - 1, y |-> y - 1, alts |-> Alternatives(C.kinds[t[i]], x, y)]]
  /\ at' = at + 1 /\ UNCHANGED <<cid, status>>
Report == status = "walk" /\ at = Width * Height /\ Emit([cid |-> cid, out |-> out]) /\ status' = "done" /\ UNCHANGED <<cid, at, out>>
Next == Walk \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* A corner counts only between two sides which do, and objects which join     *)
(* with their own type alone join mutually.                                    *)
Inv == status = "done" =>
  \A x \in 1..Width : \A y \in 1..Height : \A k \in {C.rows[y][x][i] : i \in 1..Len(C.rows[y][x])} :
    LET o == C.kinds[k] j == Junction(o, x, y) IN
    /\ \A c \in j \cap {"nw", "ne", "sw", "se"} : Sides(c)[1] \in j /\ Sides(c)[2] \in j
    /\ (o.can.k = "same" /\ Stuck(o)) => \A d \in j \cap {"n", "s", "e", "w"} :
         LET p == There(x, y, d) IN
         ~Within(p[1], p[2]) \/ \E m \in {C.rows[p[2]][p[1]][i] : i \in 1..Len(C.rows[p[2]][p[1]])} :
           C.kinds[m].path = o.path /\ (C.kinds[m].can.k = "same" /\ Stuck(C.kinds[m]) => Opposite(d) \in Junction(C.kinds[m], p[1], p[2]))
==============================================================================
