---------------------------- MODULE IntervalMap ----------------------------
(* P01.  The interval tree as seen by its users: an ordered multimap from     *)
(* closed intervals to sequences of values.                                   *)
(* State: `content`, the entries in ascending order of (start, end);          *)
(* transitions: Insert, Remove and Merge; `hist` is the operation history.    *)
EXTENDS VCommon

CONSTANTS MaxPoint,   \* intervals are subsets of 0..MaxPoint
          MaxOps,     \* length of exhaustively explored histories
          Mode        \* "all": any history; "perm": distinct inserts, then removals;
                      \* "cases": histories supplied by the environment

VARIABLES content, hist, n, todo, cid

vars == <<content, hist, n, todo, cid>>

Intervals == {i \in (0..MaxPoint) \X (0..MaxPoint) : i[1] <= i[2]}

KeyLess(a, b) == a.s < b.s \/ (a.s = b.s /\ a.e < b.e)
SameKey(a, b) == a.s = b.s /\ a.e = b.e

Without(c, s, e) == SelectSeq(c, LAMBDA x : ~(x.s = s /\ x.e = e))

Ins(c, s, e, v) ==
  LET k == [s |-> s, e |-> e]
      old == SelectSeq(c, LAMBDA x : SameKey(x, k))
      vals == IF old = <<>> THEN <<v>> ELSE Append(old[1].v, v)
      lo == SelectSeq(c, LAMBDA x : KeyLess(x, k))
      hi == SelectSeq(c, LAMBDA x : KeyLess(k, x))
  IN lo \o <<[s |-> s, e |-> e, v |-> vals]>> \o hi

\* Merging another tree in: its entries in order, each entry's values in order.
RECURSIVE InsAll(_, _)
InsAll(c, items) ==
  IF items = <<>> THEN c
  ELSE InsAll(Ins(c, items[1].s, items[1].e, items[1].v), Tail(items))

AsItems(c) == Flatten([i \in 1..Len(c) |->
                 [j \in 1..Len(c[i].v) |-> [s |-> c[i].s, e |-> c[i].e, v |-> c[i].v[j]]]])

Apply(c, op) ==
  CASE op.op = "ins" -> Ins(c, op.s, op.e, op.v)
    [] op.op = "rem" -> Without(c, op.s, op.e)
    [] op.op = "mrg" -> InsAll(c, AsItems(InsAll(<<>>, op.with)))

\* An overlap query: the entries sharing at least one point with [a, b].
Overlap(c, a, b) == SelectSeq(c, LAMBDA x : x.s <= b /\ a <= x.e)

\* Fewest entries an AVL tree of height h can hold.
RECURSIVE MinNodes(_)
MinNodes(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE MinNodes(h - 1) + MinNodes(h - 2) + 1
MaxHeight(size) == CHOOSE h \in 0..(size + 1) : MinNodes(h) <= size /\ size < MinNodes(h + 1)

Init ==
  /\ content = <<>> /\ hist = <<>> /\ n = 0
  /\ IF Mode = "cases" THEN \E i \in 1..Len(Cases) : cid = i /\ todo = Cases[i].ops
                       ELSE cid = 0 /\ todo = <<>>

Do(op) == content' = Apply(content, op) /\ hist' = Append(hist, op) /\ n' = n + 1

FreeStep ==
  /\ Len(hist) < MaxOps
  /\ \E i \in Intervals :
       \/ Do([op |-> "ins", s |-> i[1], e |-> i[2], v |-> n])
       \/ Do([op |-> "rem", s |-> i[1], e |-> i[2]])
       \/ \E j \in Intervals : Do([op |-> "mrg", with |-> <<
              [s |-> i[1], e |-> i[2], v |-> 100 + n],
              [s |-> j[1], e |-> j[2], v |-> 200 + n],
              [s |-> i[1], e |-> i[2], v |-> 300 + n] >>])
  /\ UNCHANGED <<todo, cid>>

\* Distinct points inserted in every order, then removed in every order.
PermStep ==
  /\ Len(hist) < MaxOps
  /\ LET inserted == {hist[i].s : i \in {k \in 1..Len(hist) : hist[k].op = "ins"}}
         removed == {hist[i].s : i \in {k \in 1..Len(hist) : hist[k].op = "rem"}}
     IN IF inserted # 0..MaxPoint
        THEN \E p \in (0..MaxPoint) \ inserted :
               Do([op |-> "ins", s |-> p, e |-> (IF p % 3 = 1 THEN MaxPoint ELSE p), v |-> n])
        ELSE \E p \in inserted \ removed :
               Do([op |-> "rem", s |-> p, e |-> (IF p % 3 = 1 THEN MaxPoint ELSE p)])
  /\ UNCHANGED <<todo, cid>>

CaseStep ==
  /\ todo # <<>>
  /\ content' = Apply(content, Head(todo)) /\ todo' = Tail(todo)
  /\ n' = n + 1 /\ UNCHANGED <<hist, cid>>

Next == CASE Mode = "all" -> FreeStep [] Mode = "perm" -> PermStep [] Mode = "cases" -> CaseStep

Done == CASE Mode = "cases" -> todo = <<>> [] Mode = "perm" -> Len(hist) = MaxOps [] OTHER -> TRUE

Pairs(c) == [i \in 1..Len(c) |-> <<c[i].s, c[i].e>>]

Observation ==
  [cid |-> cid, ops |-> hist, content |-> content, maxh |-> MaxHeight(Len(content)),
   queries |-> IF Mode = "cases"
               THEN [q \in 1..Len(Cases[cid].qs) |-> Pairs(Overlap(content, Cases[cid].qs[q][1], Cases[cid].qs[q][2]))]
               ELSE Flatten([a \in 1..(MaxPoint + 1) |->
                      [b \in 1..(MaxPoint + 2 - a) |-> Pairs(Overlap(content, a - 1, a + b - 2))]])]

\* Model invariants: strictly ascending keys, no empty entries, every live
\* value present exactly once, and a degenerate query finds its own interval.
Sorted == \A i \in 1..(Len(content) - 1) : KeyLess(content[i], content[i + 1])
NonEmpty == \A i \in 1..Len(content) : content[i].v # <<>>
SelfFound == \A i \in 1..Len(content) : Has(Overlap(content, content[i].s, content[i].s), content[i])

Inv == Sorted /\ NonEmpty /\ SelfFound /\ (Done => Emit(Observation))
=============================================================================
