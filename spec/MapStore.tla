------------------------------- MODULE MapStore -------------------------------
(* Histories of a map in memory: edits of tiles, of the dictionary and of the *)
(* values, saving to one of two files and loading back.  Values and objects    *)
(* are abstract numbers; the harness gives them texts.                         *)
EXTENDS VCommon

CONSTANTS Mode, MaxOps, NKeys, NTiles
VARIABLES cid, script, mem, files, ops, seen, status
vars == <<cid, script, mem, files, ops, seen, status>>

(* mem = [dict: sequence of [k, objs] sorted by k, grid: sequence of keys]; an object is a number *)
None == [dict |-> <<>>, grid |-> <<>>]
Put(d, k, objs) ==
  LET lo == SelectSeq(d, LAMBDA e : e.k < k)
      hi == SelectSeq(d, LAMBDA e : e.k > k) IN lo \o <<[k |-> k, objs |-> objs]>> \o hi
Op(o, a, b) == [o |-> o, a |-> a, b |-> b, objs |-> <<>>]

Apply(o) ==
  CASE o.o = "entry" -> mem' = [mem EXCEPT !.dict = Put(@, o.a, o.objs)] /\ UNCHANGED <<files, seen>>
    [] o.o = "drop" -> mem' = [mem EXCEPT !.dict = SelectSeq(@, LAMBDA e : e.k # o.a)] /\ UNCHANGED <<files, seen>>
    [] o.o = "tile" -> mem' = [mem EXCEPT !.grid[o.a] = o.b] /\ UNCHANGED <<files, seen>>
    [] o.o = "save" -> files' = [files EXCEPT ![o.a] = mem] /\ UNCHANGED <<mem, seen>>
    [] o.o = "load" -> mem' = files[o.a] /\ seen' = Append(seen, files[o.a]) /\ UNCHANGED files

Fresh(c) == [dict |-> <<[k |-> 0, objs |-> <<1>>]>>, grid |-> [i \in 1..c |-> 0]]
Init ==
  /\ ops = <<>> /\ seen = <<>> /\ files = [i \in 1..2 |-> None] /\ status = "run"
  /\ IF Mode = "gen" THEN cid = 0 /\ script = <<>> /\ mem = Fresh(NTiles)
     ELSE cid \in 1..Len(Cases) /\ script = Cases[cid].ops /\ mem = Fresh(Cases[cid].tiles)

Known == {mem.dict[i].k : i \in 1..Len(mem.dict)}
Choices == {[o |-> "entry", a |-> k, b |-> 0, objs |-> ob] : k \in NKeys, ob \in {<<2>>, <<3, 1>>}}
           \cup {Op("tile", t, k) : t \in 1..NTiles, k \in Known}
           \cup {Op("save", f, 0) : f \in 1..2} \cup {Op("load", f, 0) : f \in {i \in 1..2 : files[i] # None}}
Step == /\ Mode = "gen" /\ status = "run" /\ Len(ops) < MaxOps
        /\ \E o \in Choices : Apply(o) /\ ops' = Append(ops, o)
        /\ UNCHANGED <<cid, script, status>>
Play == /\ Mode = "cases" /\ status = "run" /\ script # <<>>
        /\ Apply(Head(script)) /\ ops' = Append(ops, Head(script)) /\ script' = Tail(script)
        /\ UNCHANGED <<cid, status>>
Done == IF Mode = "gen" THEN Len(ops) = MaxOps /\ Last(ops).o = "load" ELSE script = <<>>
Report == /\ status = "run" /\ Done
          /\ Emit([cid |-> cid, ops |-> IF Mode = "gen" THEN ops ELSE <<>>, seen |-> seen])
          /\ status' = "reported" /\ UNCHANGED <<cid, script, mem, files, ops, seen>>
Next == Step \/ Play \/ Report

(* A load right after a save changes nothing; the dictionary stays sorted. *)
Inv ==
  /\ \A i \in 1..(Len(mem.dict) - 1) : mem.dict[i].k < mem.dict[i + 1].k
  /\ Len(ops) > 0 /\ Last(ops).o = "load" => mem = files[Last(ops).a] /\ Last(seen) = mem
==============================================================================
