------------------------------- MODULE MapFile --------------------------------
(* A map file as a sequence of dictionary keys and coordinate blocks, and the *)
(* reader as a state machine that consumes it one item at a time.  Letters of  *)
(* keys are the digits 0..51.  A block is [x, y, z, rows]; a row is a sequence *)
(* of letters, the first row of a block being the northernmost.                *)
(*                                                                            *)
(* orient: whether a block's y coordinate names its first row counted from the *)
(* top of the map ("top") or its last row counted from the bottom ("bottom").  *)
(* The two differ only for blocks that do not start at y = 1, which no writer  *)
(* emits; both are accepted.                                                   *)
EXTENDS VCommon

CONSTANTS Mode, MaxDim, MaxBlocks, KeyLens
VARIABLES cid, orig, dict, blocks, cut, orient, phase, pos, row, kl, tiles, table
vars == <<cid, orig, dict, blocks, cut, orient, phase, pos, row, kl, tiles, table>>

RECURSIVE Value(_)
Value(k) == IF k = <<>> THEN 0 ELSE Value(Front(k)) * 52 + Last(k)
Letters(n, len) == [i \in 1..len |-> (n \div (CASE len - i = 0 -> 1 [] len - i = 1 -> 52 [] OTHER -> 2704)) % 52]

----------------------------------------------------------------------------
(* The writer's styles.  m = [dx, dy, dz, at], at[z][y][x] with y from the bottom. *)
Row(m, len, z, y, x1, x2) == Flatten([i \in 1..(x2 - x1 + 1) |-> Letters(m.at[z][y][x1 + i - 1], len)])
Block(m, len, z, x1, x2) == [x |-> x1, y |-> 1, z |-> z, rows |-> [r \in 1..m.dy |-> Row(m, len, z, m.dy + 1 - r, x1, x2)]]
ByLevel(m, len) == [z \in 1..m.dz |-> Block(m, len, z, 1, m.dx)]
ByColumn(m, len) == [i \in 1..(m.dx * m.dz) |-> Block(m, len, ((i - 1) \div m.dx) + 1, ((i - 1) % m.dx) + 1, ((i - 1) % m.dx) + 1)]

(* Small maps with pairwise different contents, and their files. *)
Dims == {[dx |-> x, dy |-> y, dz |-> z] : x, y, z \in 1..MaxDim}
MapOf(d, salt) == [dx |-> d.dx, dy |-> d.dy, dz |-> d.dz,
   at |-> [z \in 1..d.dz |-> [y \in 1..d.dy |-> [x \in 1..d.dx |-> (x - 1) + (y - 1) * d.dx + (z - 1) * d.dx * d.dy + salt]]]]
Salt(len) == CASE len = 1 -> {0, 25} [] len = 2 -> {47, 2677} [] OTHER -> {2701, 65500}
KeysOf(m, len) == [i \in 1..(m.dx * m.dy * m.dz) |-> Letters(m.at[((i - 1) \div (m.dx * m.dy)) + 1][(((i - 1) \div m.dx) % m.dy) + 1][((i - 1) % m.dx) + 1], len)]
Files == UNION {UNION {LET m == MapOf(d, s) IN
    {[m |-> m, dict |-> KeysOf(m, len), blocks |-> bs] : bs \in {ByLevel(m, len), ByColumn(m, len), Reverse(ByColumn(m, len))}}
    : d \in Dims, s \in Salt(len)} : len \in KeyLens}

(* Arbitrary small block sequences over one- and two-letter keys. *)
SmallRows == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0, 1>>}
SmallRowSeqs == {<<>>} \cup {<<r>> : r \in SmallRows} \cup {<<r, s>> : r, s \in SmallRows \ {<<>>}}
SmallBlocks == {[x |-> x, y |-> y, z |-> z, rows |-> rs] : x \in 0..2, y \in 1..2, z \in 1..2, rs \in SmallRowSeqs}
SmallFiles(n) == UNION {{[dict |-> d, blocks |-> bs] : d \in {<<<<0>>, <<1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0>>, <<1, 1>>>>}, bs \in [1..k -> SmallBlocks]} : k \in 1..n}

NoMap == [dx |-> 0, dy |-> 0, dz |-> 0, at |-> <<>>]
Init ==
  /\ CASE Mode = "maps" -> cid = 0 /\ cut = FALSE /\ \E f \in Files : orig = f.m /\ dict = f.dict /\ blocks = f.blocks
       [] Mode = "blocks" -> cid = 0 /\ cut = FALSE /\ orig = NoMap /\ \E f \in SmallFiles(MaxBlocks) : dict = f.dict /\ blocks = f.blocks
       [] OTHER -> cid \in 1..Len(Cases) /\ orig = NoMap /\ dict = Cases[cid].dict /\ blocks = Cases[cid].blocks /\ cut = Cases[cid].cut
  /\ orient \in (IF \A i \in 1..Len(blocks) : blocks[i].y = 1 THEN {"top"} ELSE {"top", "bottom"})
  /\ phase = "dict" /\ pos = 1 /\ row = 1 /\ kl = 0 /\ tiles = <<>> /\ table = <<>>

----------------------------------------------------------------------------
(* The reader.  tiles: sequence of [x, y, z, k] with y counted as `orient` says. *)
Fail == phase' = "error" /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, pos, row, kl, tiles, table>>

ReadKey ==
  /\ phase = "dict" /\ pos <= Len(dict)
  /\ LET k == dict[pos] IN
     IF Len(k) = 0 \/ Len(k) > 3 \/ (kl # 0 /\ kl # Len(k)) \/ Value(k) > 65535 THEN Fail
     ELSE /\ kl' = Len(k) /\ pos' = pos + 1 /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, phase, row, tiles, table>>

StartGrid ==
  /\ phase = "dict" /\ pos > Len(dict)
  /\ IF blocks = <<>> \/ dict = <<>> THEN Fail
     ELSE phase' = "grid" /\ pos' = 1 /\ row' = 1 /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, kl, tiles, table>>

ReadRow ==
  /\ phase = "grid" /\ pos <= Len(blocks) /\ row <= Len(blocks[pos].rows)
  /\ LET b == blocks[pos]
         r == b.rows[row]
         n == Len(r) \div kl
         y == IF orient = "top" THEN b.y + row - 1 ELSE b.y + Len(b.rows) - row
         new == [i \in 1..n |-> [x |-> b.x + i - 1, y |-> y, z |-> b.z, k |-> Value(SubSeq(r, (i - 1) * kl + 1, i * kl))]] IN
     IF \/ Len(r) % kl # 0
        \/ \E i \in 1..n : new[i].k > 65535 \/ \E j \in 1..Len(tiles) : tiles[j].x = new[i].x /\ tiles[j].y = y /\ tiles[j].z = b.z
        \/ b.x < 1 \/ b.y < 1 \/ b.z < 1
     THEN Fail
     ELSE tiles' = tiles \o new /\ row' = row + 1 /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, phase, pos, kl, table>>

NextBlock ==
  /\ phase = "grid" /\ pos <= Len(blocks) /\ row > Len(blocks[pos].rows)
  /\ IF blocks[pos].x < 1 \/ blocks[pos].y < 1 \/ blocks[pos].z < 1 THEN Fail
     ELSE pos' = pos + 1 /\ row' = 1 /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, phase, kl, tiles, table>>

RECURSIVE MaxOf(_, _)
MaxOf(s, f) == IF s = <<>> THEN 0 ELSE Max2(Head(s)[f], MaxOf(Tail(s), f))
DimX == Max2(MaxOf(tiles, "x"), MaxOf(blocks, "x"))
DimY == Max2(MaxOf(tiles, "y"), MaxOf(blocks, "y"))
DimZ == MaxOf(blocks, "z")
At(x, y, z) == {i \in 1..Len(tiles) : tiles[i].x = x /\ tiles[i].y = y /\ tiles[i].z = z}

Finish ==
  /\ phase = "grid" /\ pos > Len(blocks)
  /\ IF cut \/ Max2(DimX, Max2(DimY, DimZ)) > Len(tiles) \/ Len(tiles) # DimX * DimY * DimZ THEN Fail
     ELSE /\ table' = [z \in 1..DimZ |-> [y \in 1..DimY |-> [x \in 1..DimX |->
                LET yy == IF orient = "top" THEN DimY + 1 - y ELSE y IN tiles[CHOOSE i \in At(x, yy, z) : TRUE].k]]]
          /\ phase' = "ok" /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, pos, row, kl, tiles>>

Report ==
  /\ phase \in {"ok", "error"}
  /\ Emit([cid |-> cid, dict |-> dict, blocks |-> blocks, orient |-> orient, ok |-> phase = "ok", table |-> table])
  /\ phase' = "reported" /\ UNCHANGED <<cid, orig, dict, blocks, cut, orient, pos, row, kl, tiles, table>>
Next == ReadKey \/ StartGrid \/ ReadRow \/ NextBlock \/ Finish \/ Report

Inv ==
  \* no coordinate is ever given two keys
  /\ \A i, j \in 1..Len(tiles) : i # j => <<tiles[i].x, tiles[i].y, tiles[i].z>> # <<tiles[j].x, tiles[j].y, tiles[j].z>>
  \* reading what was written gives the map back, in every style
  /\ (Mode = "maps" /\ phase \in {"ok", "reported"}) => table = orig.at
  /\ Mode = "maps" => phase # "error"
==============================================================================
