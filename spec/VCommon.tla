------------------------------ MODULE VCommon ------------------------------
(* Helpers shared by all specifications: JSON emission of behaviours and the *)
(* externally supplied cases.                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == PrintT("@@" \o ToJson(x))

Cases == ndJsonDeserialize(IOEnv.CASES)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x

RECURSIVE FoldSeqL(_, _, _)
FoldSeqL(op(_, _), acc, s) ==
  IF s = <<>> THEN acc ELSE FoldSeqL(op, op(acc, Head(s)), Tail(s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
