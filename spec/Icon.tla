-------------------------------- MODULE Icon ----------------------------------
(* An icon description read line by line, and where each frame of each state   *)
(* lies in the sheet.  A state: [name, dup, dirs, frames, delays, loop, rewind, *)
(* movement, offset]; cells are numbered from 0 in file order.                 *)
EXTENDS VCommon

CONSTANTS Mode, Names, MaxStates, DirCounts, FrameCounts
VARIABLES cid, script, lines, states, cur, status
vars == <<cid, script, lines, states, cur, status>>

(* Directions by their numbers: N 1, S 2, E 4, W 8 and their sums. *)
Dirs == {1, 2, 4, 8, 5, 9, 6, 10}
Order == <<2, 1, 4, 8, 6, 10, 5, 9>>
Index(dirs, d) == IF \E i \in 1..dirs : Order[i] = d THEN (CHOOSE i \in 1..8 : Order[i] = d) - 1 ELSE 0

(* The compass. *)
Ring == <<1, 5, 4, 6, 2, 10, 8, 9>>
Pos(d) == CHOOSE i \in 1..8 : Ring[i] = d
Turn(d, n) == Ring[((Pos(d) - 1 + n + 8) % 8) + 1]
DX(d) == IF d \in {4, 5, 6} THEN 1 ELSE IF d \in {8, 9, 10} THEN -1 ELSE 0
DY(d) == IF d \in {1, 5, 9} THEN 1 ELSE IF d \in {2, 6, 10} THEN -1 ELSE 0
At(x, y) == CHOOSE d \in Dirs : DX(d) = x /\ DY(d) = y
Compass == [i \in 1..8 |-> LET d == Ring[i] IN
  [d |-> d, x |-> DX(d), y |-> DY(d), flip |-> At(-DX(d), -DY(d)), ns |-> At(DX(d), -DY(d)), ew |-> At(-DX(d), DY(d)),
   cw45 |-> Turn(d, 1), ccw45 |-> Turn(d, -1), cw90 |-> Turn(d, 2), ccw90 |-> Turn(d, -2), diag |-> DX(d) # 0 /\ DY(d) # 0]]

----------------------------------------------------------------------------
None == [name |-> "", dup |-> -1, dirs |-> 1, frames |-> 1, delays |-> <<>>, loop |-> 0, rewind |-> FALSE, movement |-> FALSE, offset |-> 0]
Size(s) == s.dirs * s.frames
All == IF cur = None THEN states ELSE Append(states, cur)
Total(ss) == IF ss = <<>> THEN 0 ELSE Last(ss).offset + Size(Last(ss))
Dup(n) == Cardinality({i \in 1..Len(All) : All[i].name = n})

(* One line: [k, s, n, l]: key, text, number, list. *)
L(k, s, n, l) == [k |-> k, s |-> s, n |-> n, l |-> l]
Apply(o) ==
  CASE o.k = "state" -> states' = All /\ cur' = [None EXCEPT !.name = o.s, !.dup = Dup(o.s), !.offset = Total(All)]
    [] o.k = "dirs" -> cur' = [cur EXCEPT !.dirs = o.n] /\ UNCHANGED states
    [] o.k = "frames" -> cur' = [cur EXCEPT !.frames = o.n] /\ UNCHANGED states
    [] o.k = "delay" -> cur' = [cur EXCEPT !.delays = o.l] /\ UNCHANGED states
    [] o.k = "loop" -> cur' = [cur EXCEPT !.loop = o.n] /\ UNCHANGED states
    [] o.k = "rewind" -> cur' = [cur EXCEPT !.rewind = (o.n # 0)] /\ UNCHANGED states
    [] o.k = "movement" -> cur' = [cur EXCEPT !.movement = (o.n # 0)] /\ UNCHANGED states
    [] OTHER -> UNCHANGED <<cur, states>>

Init == /\ lines = <<>> /\ states = <<>> /\ cur = None /\ status = "run"
        /\ IF Mode = "cases" THEN cid \in 1..Len(Cases) /\ script = Cases[cid].lines ELSE cid = 0 /\ script = <<>>

Blocks == {<<L("state", n, 0, <<>>), L("dirs", "", d, <<>>), L("frames", "", f, <<>>)>> : n \in Names, d \in DirCounts, f \in FrameCounts}
AddState == /\ Mode = "gen" /\ status = "run" /\ script = <<>> /\ Len(All) < MaxStates
            /\ \E b \in Blocks : script' = b
            /\ UNCHANGED <<cid, lines, states, cur, status>>
Read == /\ status = "run" /\ script # <<>>
        /\ Apply(Head(script)) /\ lines' = Append(lines, Head(script)) /\ script' = Tail(script)
        /\ UNCHANGED <<cid, status>>
Report == /\ status = "run" /\ script = <<>> /\ (Mode = "gen" => Len(All) = MaxStates) /\ Mode # "compass"
          /\ Emit([cid |-> cid, lines |-> IF Mode = "gen" THEN lines ELSE <<>>, states |-> All])
          /\ status' = "reported" /\ UNCHANGED <<cid, script, lines, states, cur>>
Rose == /\ Mode = "compass" /\ status = "run" /\ Emit([compass |-> Compass])
        /\ status' = "reported" /\ UNCHANGED <<cid, script, lines, states, cur>>
Next == AddState \/ Read \/ Report \/ Rose

Cell(s, d, f) == s.offset + Index(s.dirs, d) + (f - 1) * s.dirs
Inv ==
  \* the cells of all states tile the sheet: every cell below the total belongs to exactly one frame and direction
  /\ status = "reported" =>
       LET owners == {<<i, d, f>> : i \in 1..Len(All), d \in 1..8, f \in 1..8}
           mine == {o \in owners : o[2] <= All[o[1]].dirs /\ o[3] <= All[o[1]].frames}
           small == \A i \in 1..Len(All) : All[i].frames <= 8 IN
       small => /\ {Cell(All[o[1]], Order[o[2]], o[3]) : o \in mine} = 0..(Total(All) - 1)
                /\ Cardinality(mine) = Total(All)
  \* names and duplicate numbers identify states
  /\ \A i, j \in 1..Len(All) : i # j => <<All[i].name, All[i].dup>> # <<All[j].name, All[j].dup>>
  \* the compass: turning four times by a quarter, or flipping twice, is nothing
  /\ \A d \in Dirs : /\ Turn(Turn(d, 2), -2) = d /\ Turn(d, 4) = At(-DX(d), -DY(d))
                     /\ \A i \in 1..8 : At(DX(d), DY(d)) = d
==============================================================================
