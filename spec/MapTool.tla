-------------------------------- MODULE MapTool --------------------------------
(* The commands of the map tool.  A case holds maps (tiles as numbers of keys, *)
(* y upwards; keys as lists of the things on them) and commands.  The machine  *)
(* carries the commands out one by one, a file and a level at a time: it says  *)
(* where two maps differ, how large maps are, and draws pictures of them.      *)
EXTENDS VCommon

VARIABLES cid, status, at, file, level, pics, failed, out
vars == <<cid, status, at, file, level, pics, failed, out>>

C == Cases[cid]
Map(i) == C.maps[i]
Cmd == C.commands[at]
Tile(m, x, y, z) == m.keys[m.tiles[z][y][x]]
Size(m) == <<m.w, m.h, m.d>>
Least(a, b) == IF a < b THEN a ELSE b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

(* Where tiles differ, in what they hold, within the size common to both; by   *)
(* levels, then rows from the bottom, then columns.                            *)
Places(w, h, d) == [i \in 1..(w * h * d) |-> <<((i - 1) % w) + 1, (((i - 1) \div w) % h) + 1, ((i - 1) \div (w * h)) + 1>>]
Differences(l, r) ==
  SelectSeq(Places(Least(l.w, r.w), Least(l.h, r.h), Least(l.d, r.d)), LAMBDA p : Tile(l, p[1], p[2], p[3]) # Tile(r, p[1], p[2], p[3]))

(* What is seen of a tile: of the things on its uppermost layer the last.      *)
Top(t) == CHOOSE i \in 1..Len(t) : \A j \in 1..Len(t) : C.layer[t[j]] < C.layer[t[i]] \/ (C.layer[t[j]] = C.layer[t[i]] /\ j <= i)
Seen(t) == t[Top(t)]
(* A part of a level, its northernmost row first.                              *)
Picture(m, z, x0, y0, x1, y1) == [r \in 1..(y1 - y0 + 1) |-> [c \in 1..(x1 - x0 + 1) |-> Seen(Tile(m, x0 + c - 1, y1 - r + 1, z))]]

(* A range asked for is cut down to the map; what is not said is the whole.    *)
From(m) == [i \in 1..3 |-> IF i > Len(Cmd.min) THEN 1 ELSE Clamp(Cmd.min[i], 1, Size(m)[i])]
To(m) == [i \in 1..3 |-> IF i > Len(Cmd.max) THEN Size(m)[i] ELSE Clamp(Cmd.max[i], From(m)[i], Size(m)[i])]
Chunks(f) == IF f.all THEN [z \in 1..Map(f.m).d |-> [z |-> z, x0 |-> 0, y0 |-> 0, x1 |-> 0, y1 |-> 0]] ELSE f.chunks
Given(v, other) == IF v = 0 THEN other ELSE v

------------------------------------------------------------------------------
Init == cid \in 1..Len(Cases) /\ status = "run" /\ at = 1 /\ file = 1 /\ level = 1 /\ pics = <<>> /\ failed = 0 /\ out = <<>>

Answer(o) == out' = Append(out, o) /\ at' = at + 1 /\ file' = 1 /\ level' = 1 /\ pics' = <<>> /\ failed' = 0 /\ UNCHANGED <<cid, status>>
Running(k) == status = "run" /\ at <= Len(C.commands) /\ Cmd.k = k

Diff == Running("diff") /\ LET l == Map(Cmd.files[1]) r == Map(Cmd.files[2]) IN Answer([sized |-> Size(l) # Size(r), places |-> Differences(l, r)])
Info == Running("info") /\ Answer([maps |-> [i \in 1..Len(Cmd.files) |-> LET m == Map(Cmd.files[i]) IN [size |-> Size(m), letters |-> m.letters, keys |-> Len(m.keys)]]])

(* Pictures of whole files; one which cannot be read is counted and left out.  *)
Unread ==
  /\ Running("minimap") /\ file <= Len(Cmd.files) /\ Map(Cmd.files[file]).bad
  /\ failed' = failed + 1 /\ file' = file + 1 /\ UNCHANGED <<cid, status, at, level, pics, out>>
Draw ==
  /\ Running("minimap") /\ file <= Len(Cmd.files) /\ ~Map(Cmd.files[file]).bad
  /\ LET m == Map(Cmd.files[file])
         a == From(m)
         b == To(m)
         z == a[3] + level - 1 IN
     IF z > b[3] THEN file' = file + 1 /\ level' = 1 /\ UNCHANGED pics
     ELSE /\ pics' = Append(pics, [file |-> Cmd.files[file], z |-> z, chunk |-> 0, rows |-> Picture(m, z, a[1], a[2], b[1], b[2])])
          /\ level' = level + 1 /\ UNCHANGED file
  /\ UNCHANGED <<cid, status, at, failed, out>>
(* Pictures of parts of files.                                                 *)
DrawPart ==
  /\ Running("many") /\ file <= Len(Cmd.parts)
  /\ LET f == Cmd.parts[file]
         m == Map(f.m)
         cs == Chunks(f) IN
     IF level > Len(cs) THEN file' = file + 1 /\ level' = 1 /\ UNCHANGED pics
     ELSE LET c == cs[level] IN
          /\ pics' = Append(pics, [file |-> f.m, z |-> c.z, chunk |-> level,
                                   rows |-> Picture(m, c.z, Given(c.x0, 1), Given(c.y0, 1), Least(Given(c.x1, m.w), m.w), Least(Given(c.y1, m.h), m.h))])
          /\ level' = level + 1 /\ UNCHANGED file
  /\ UNCHANGED <<cid, status, at, failed, out>>
Drawn ==
  /\ \/ Running("minimap") /\ file > Len(Cmd.files)
     \/ Running("many") /\ file > Len(Cmd.parts)
  /\ Answer([pics |-> pics, failed |-> failed])
Report ==
  /\ status = "run" /\ at > Len(C.commands)
  /\ Emit([cid |-> cid, out |-> out])
  /\ status' = "done" /\ UNCHANGED <<cid, at, file, level, pics, failed, out>>

Next == Diff \/ Info \/ Unread \/ Draw \/ DrawPart \/ Drawn \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inv ==
  (* no picture is larger than its map, nor empty, and all its rows are alike *)
  /\ \A i \in 1..Len(pics) :
       LET m == Map(pics[i].file) IN
       Len(pics[i].rows) \in 1..m.h /\ \A r \in 1..Len(pics[i].rows) : Len(pics[i].rows[r]) \in 1..m.w /\ Len(pics[i].rows[r]) = Len(pics[i].rows[1])
  (* differences are mutual, and no map differs from itself *)
  /\ Running("diff") => LET l == Map(Cmd.files[1]) r == Map(Cmd.files[2]) IN Differences(l, r) = Differences(r, l) /\ Differences(l, l) = <<>>
Terminates == <>(status = "done")
===============================================================================
