------------------------------- MODULE FoldOne --------------------------------
(* One constant initializer, folded on its own.                               *)
(* Mode "gen1": every operator on every pair of Leaves; "gen2": every pair of *)
(* operators on three Leaves; "cases": expressions from the case file.        *)
EXTENDS Fold

CONSTANTS Mode, Leaves, BinOps, UnOps
VARIABLES cid, e, val, status
vars == <<cid, e, val, status>>

B(o, x, y) == E("bin", o, 0, 1, "", <<x, y>>)
U(o, x) == E("un", o, 0, 1, "", <<x>>)
T(x, y, z) == E("if", "", 0, 1, "", <<x, y, z>>)

Init ==
  /\ \/ /\ Mode = "gen1" /\ cid = 0
        /\ \/ \E o \in BinOps, x \in Leaves, y \in Leaves : e = B(o, x, y)
           \/ \E o \in UnOps, x \in Leaves : e = U(o, x)
           \/ \E x \in Leaves, y \in Leaves, z \in Leaves : e = T(x, y, z)
     \/ /\ Mode = "gen2" /\ cid = 0
        /\ \/ \E o \in BinOps, p \in BinOps, x \in Leaves, y \in Leaves, z \in Leaves : e = B(o, B(p, x, y), z)
           \/ \E o \in BinOps, p \in BinOps, x \in Leaves, y \in Leaves, z \in Leaves : e = B(o, x, B(p, y, z))
           \/ \E o \in BinOps, p \in UnOps, q \in UnOps, x \in Leaves, y \in Leaves : e = B(o, U(p, x), U(q, y))
     \/ Mode = "cases" /\ cid \in 1..Len(Cases) /\ e = Cases[cid].e
  /\ val = Wait /\ status = "run"

None == [look |-> <<>>, from |-> <<>>, fld |-> <<>>]
Step == /\ status = "run" /\ val' = Eval(e, None) /\ status' = "done" /\ UNCHANGED <<cid, e>>
Report == /\ status = "done" /\ Emit([cid |-> cid, e |-> IF Mode = "cases" THEN Null ELSE e, v |-> val])
          /\ status' = "reported" /\ UNCHANGED <<cid, e, val>>
Next == Step \/ Report

(* Laws of the folder that hold whatever the operands are. *)
Is(o) == e.k = "bin" /\ e.o = o
Inv == status = "done" =>
  /\ (Lit(val) \/ val.k \in {"err", "open"})
  /\ (e.k = "un" /\ e.o = "!" /\ Lit(val)) => val \in {IntV(0), IntV(1)}
  /\ (e.k = "bin" /\ e.o \in {"==", "!=", "<", "<=", ">", ">="} /\ Lit(val)) => val \in {IntV(0), IntV(1)}
  /\ (e.k = "bin" /\ e.o \in {"&", "|", "^", "<<", ">>"} /\ Lit(val)) => val.d = 1 /\ val.n \in 0..(Big - 1)
  /\ ((Is("&&") \/ Is("||")) /\ Lit(val)) => \E i \in 1..2 : val = Eval(e.a[i], None)
  /\ (Is("%%") /\ val.k = "num") => LET r == Eval(e.a[2], None) IN
        val.n = 0 \/ ((val.n > 0) = (r.n > 0) /\ Abs(val.n) * r.d < Abs(r.n) * val.d)
==============================================================================
