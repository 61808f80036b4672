------------------------------- MODULE Minimap --------------------------------
(* Drawing a map.  A case holds the declared types (with the variables set on *)
(* them), the icon sheets, the tiles row by row from the top, the rectangle    *)
(* asked for, the hiding options and the pixels to look at.  The machine walks *)
(* the tiles of the rectangle and collects sprites, sorts them by depth, then  *)
(* paints them one at a time onto the observed pixels.                        *)
EXTENDS VCommon

VARIABLES cid, status, at, sprites, img
vars == <<cid, status, at, sprites, img>>

C == Cases[cid]
Tile == 32
Absent == [k |-> "absent", i |-> 0, s |-> "", l |-> <<>>]

------------------------------------------------------------------------------
(* Variables of an object: its own, else the nearest ancestor's.              *)
TypeIx(p) == LET S == {i \in 1..Len(C.types) : C.types[i].path = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
VarIn(vs, x) == LET S == {i \in 1..Len(vs) : vs[i].x = x} IN IF S = {} THEN Absent ELSE vs[CHOOSE i \in S : TRUE].v
ParentPath(p) ==
  CASE p \in {<<"obj">>, <<"mob">>} -> <<"atom", "movable">> [] p \in {<<"turf">>, <<"area">>} -> <<"atom">>
    [] p = <<"atom">> -> <<"datum">> [] Len(p) <= 1 -> <<>> [] OTHER -> Front(p)
BuiltinVar(p, x) ==
  LET n == [k |-> "num", s |-> "", l |-> <<>>] IN
  CASE x = "layer" /\ p = <<"area">> -> n @@ [i |-> 16]
    [] x = "layer" /\ p = <<"turf">> -> n @@ [i |-> 32]
    [] x = "layer" /\ p = <<"obj">> -> n @@ [i |-> 48]
    [] x = "layer" /\ p = <<"mob">> -> n @@ [i |-> 64]
    [] OTHER -> Absent
RECURSIVE TypeVar(_, _)
TypeVar(p, x) ==
  IF p = <<>> THEN Absent
  ELSE LET t == TypeIx(p)
           own == IF t = 0 THEN Absent ELSE VarIn(C.types[t].vars, x)
           v == IF own # Absent THEN own ELSE BuiltinVar(p, x) IN
       IF v # Absent THEN v ELSE TypeVar(ParentPath(p), x)
Value(o, x) == LET v == VarIn(o.vars, x) IN IF v # Absent THEN v ELSE TypeVar(o.path, x)
Num(o, x, d) == LET v == Value(o, x) IN IF v.k = "num" THEN v.i ELSE d
Str(o, x) == LET v == Value(o, x) IN IF v.k = "str" THEN v.s ELSE ""

------------------------------------------------------------------------------
(* Which objects are drawn                                                    *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Exists(p) == TypeIx(p) # 0 \/ p \in {<<"obj">>, <<"mob">>, <<"turf">>, <<"area">>}
Shown(o) ==
  /\ Exists(o.path)
  /\ C.hideAreas => ~Prefix(<<"area">>, o.path)
  /\ C.hideInvisible => Num(o, "invisibility", 0) <= 60
  /\ C.hideInvisible => \A i \in 1..Len(C.hidden) : ~Prefix(C.hidden[i], o.path)
  /\ Str(o, "icon") # ""

------------------------------------------------------------------------------
(* Icon sheets                                                                *)
Offset(ic, n) == FoldSeqL(LAMBDA a, s : a + s.dirs * s.frames, 0, SubSeq(ic.states, 1, n - 1))
DirIx(dirs, d) ==
  CASE dirs = 1 -> 0
    [] d = 2 \/ (dirs = 4 /\ d \in {5, 6, 9, 10}) -> 0 [] d = 1 -> 1 [] d = 4 -> 2 [] d = 8 -> 3
    [] d = 6 -> 4 [] d = 10 -> 5 [] d = 5 -> 6 [] d = 9 -> 7
(* Anything that is no direction faces south, and so does a diagonal of a     *)
(* state drawn in four directions only.                                       *)
Facing(d) == IF d \in {1, 2, 4, 8, 5, 6, 9, 10} THEN d ELSE 2
IconIx(path) == LET S == {i \in 1..Len(C.icons) : C.icons[i].path = path} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
(* The cell of the sheet, or -1 when there is nothing to draw. *)
CellOf(path, state, d) ==
  IF IconIx(path) = 0 THEN -1
  ELSE LET ic == C.icons[IconIx(path)]
           S == {i \in 1..Len(ic.states) : ic.states[i].name = state} IN
       IF S = {} THEN -1
       ELSE LET n == CHOOSE i \in S : \A j \in S : i <= j IN Offset(ic, n) + DirIx(ic.states[n].dirs, d)
(* The picture in cell n, as the sheet was drawn. *)
Pixel(ic, n, x, y) ==
  LET m == (x + 2 * y + n) % ic.holes IN
  <<(40 * n + 7 * x + 13) % 256, (90 * n + 11 * y + 5) % 256, (3 * x + 5 * y + 17 * n) % 256,
    IF m = 1 THEN 0 ELSE IF m = 2 THEN 100 + 10 * (x % 8) ELSE 255>>

------------------------------------------------------------------------------
(* Colours                                                                    *)
Named(s) ==
  CASE s = "black" -> <<0, 0, 0>> [] s = "silver" -> <<192, 192, 192>> [] s \in {"gray", "grey"} -> <<128, 128, 128>>
    [] s = "white" -> <<255, 255, 255>> [] s = "maroon" -> <<128, 0, 0>> [] s = "red" -> <<255, 0, 0>> [] s = "purple" -> <<128, 0, 128>>
    [] s \in {"fuchsia", "magenta"} -> <<255, 0, 255>> [] s = "green" -> <<0, 192, 0>> [] s = "lime" -> <<0, 255, 0>>
    [] s \in {"olive", "gold"} -> <<128, 128, 0>> [] s = "yellow" -> <<255, 255, 0>> [] s = "navy" -> <<0, 0, 128>> [] s = "blue" -> <<0, 0, 255>>
    [] s = "teal" -> <<0, 128, 128>> [] s \in {"aqua", "cyan"} -> <<0, 255, 255>>
    [] OTHER -> <<255, 255, 255>>          \* no colour of that name
Colour(o) ==
  LET v == Value(o, "color")
      a == Num(o, "alpha", 255)
      rgb == CASE v.k = "hex" /\ Len(v.l) = 6 -> <<16 * v.l[1] + v.l[2], 16 * v.l[3] + v.l[4], 16 * v.l[5] + v.l[6]>>
               [] v.k = "hex" /\ Len(v.l) = 3 -> <<17 * v.l[1], 17 * v.l[2], 17 * v.l[3]>>
               [] v.k = "str" -> Named(v.s)
               [] OTHER -> <<255, 255, 255>> IN
  Append(rgb, a)
Times(a, b) == (a * b) \div 255
(* Source over destination, both unassociated, truncating; the rounded-down   *)
(* opacity may not carry a channel past its end.                              *)
Over(src, dst) ==
  LET oa == src[4] + Times(dst[4], 255 - src[4])
      ch(i) == Min2(255, (src[i] * src[4] + ((dst[i] * dst[4] * (255 - src[4])) \div 255)) \div oa) IN
  IF oa = 0 THEN <<0, 0, 0, 0>> ELSE <<ch(1), ch(2), ch(3), oa>>

------------------------------------------------------------------------------
Width == Len(C.rows[1])
Height == Len(C.rows)
(* The rectangle counts tiles from 0 at the bottom left, rows count from the top. *)
Top == Height - 1 - C.max[2]
Bottom == Height - 1 - C.min[2]
Inside(x, y) == x >= C.min[1] /\ x <= C.max[1] /\ y >= Top /\ y <= Bottom

SpriteOf(o, x, y) ==
  LET icon == Str(o, "icon")
      cell == CellOf(icon, Str(o, "icon_state"), Facing(Num(o, "dir", 2))) IN
  IF cell = -1 THEN <<>>
  ELSE LET ic == C.icons[IconIx(icon)] IN
       <<[icon |-> IconIx(icon), cell |-> cell, plane |-> Num(o, "plane", 0), layer |-> Num(o, "layer", 0), tint |-> Colour(o),
          left |-> Tile * (x - C.min[1]) + Num(o, "pixel_x", 0) + Num(o, "pixel_w", 0) + Num(o, "step_x", 0),
          top |-> Tile * (y - Top + 1) - ic.h - (Num(o, "pixel_y", 0) + Num(o, "pixel_z", 0) + Num(o, "step_y", 0))]>>
RECURSIVE SpritesOf(_, _, _)
SpritesOf(os, x, y) ==
  IF os = <<>> THEN <<>>
  ELSE (IF Shown(Head(os)) THEN SpriteOf(Head(os), x, y) ELSE <<>>) \o SpritesOf(Tail(os), x, y)

Init == /\ cid \in 1..Len(Cases) /\ status = "walk" /\ at = 0 /\ sprites = <<>>
        /\ img = [i \in 1..Len(Cases[cid].look) |-> <<0, 0, 0, 0>>]

Walk ==
  /\ status = "walk" /\ at < Width * Height
  /\ LET x == at % Width
         y == at \div Width IN
     sprites' = IF Inside(x, y) THEN sprites \o SpritesOf(C.rows[y + 1][x + 1], x, y) ELSE sprites
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, img>>

Below(a, b) == a.plane < b.plane \/ (a.plane = b.plane /\ a.layer < b.layer)
(* Insertion behind everything not above it keeps map order among equals. *)
RECURSIVE InsertSprite(_, _)
InsertSprite(s, x) == IF s = <<>> \/ ~Below(x, Last(s)) THEN Append(s, x) ELSE Append(InsertSprite(Front(s), x), Last(s))
Sort ==
  /\ status = "walk" /\ at = Width * Height
  /\ sprites' = FoldSeqL(InsertSprite, <<>>, sprites) /\ status' = "paint" /\ at' = 1
  /\ UNCHANGED <<cid, img>>

Paint ==
  /\ status = "paint" /\ at <= Len(sprites)
  /\ LET s == sprites[at]
         ic == C.icons[s.icon] IN
     img' = [i \in 1..Len(img) |->
               LET px == C.look[i][1] - s.left
                   py == C.look[i][2] - s.top IN
               IF px < 0 \/ py < 0 \/ px >= ic.w \/ py >= ic.h THEN img[i]
               ELSE LET p == Pixel(ic, s.cell, px, py)
                        src == [j \in 1..4 |-> Times(p[j], s.tint[j])] IN Over(src, img[i])]
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, sprites>>

Report ==
  /\ status = "paint" /\ at = Len(sprites) + 1
  /\ Emit([cid |-> cid, w |-> Tile * (C.max[1] - C.min[1] + 1), h |-> Tile * (C.max[2] - C.min[2] + 1), img |-> img, n |-> Len(sprites),
           rects |-> [i \in 1..Len(sprites) |-> <<sprites[i].left, sprites[i].top, C.icons[sprites[i].icon].w, C.icons[sprites[i].icon].h>>]])
  /\ status' = "done" /\ UNCHANGED <<cid, at, sprites, img>>

Next == Walk \/ Sort \/ Paint \/ Report
Spec == Init /\ [][Next]_vars

Inv == /\ \A i \in 1..Len(img) : \A j \in 1..4 : img[i][j] \in 0..255
       /\ status = "paint" => \A i, j \in 1..Len(sprites) : i < j => ~Below(sprites[j], sprites[i])
==============================================================================
