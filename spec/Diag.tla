-------------------------------- MODULE Diag ----------------------------------
(* Diagnostics passing through the configuration.  State: the configuration   *)
(* in force (threshold, level of each named type) and the diagnostics kept so  *)
(* far.  Actions: load a configuration file (good: it replaces the one in      *)
(* force; bad: a diagnostic about it is raised, the one in force stays), look  *)
(* for one beside the environment, raise a diagnostic.                        *)
(*                                                                            *)
(* Levels: 1 error, 2 warning, 3 info, 4 hint, 5 disabled, 6 unset.           *)
EXTENDS VCommon

CONSTANTS Mode, Types, MaxCfg, MaxRaise
VARIABLES cid, script, conf, kept, ops, status
vars == <<cid, script, conf, kept, ops, status>>

Unset == [th |-> 6, lv |-> <<>>]       \* lv: sequence of [t, l]
Level(c, t) == IF t = "" \/ ~\E i \in 1..Len(c.lv) : c.lv[i].t = t THEN 6
               ELSE c.lv[CHOOSE i \in 1..Len(c.lv) : c.lv[i].t = t].l
Shown(c, sev) == CASE c.th = 6 -> TRUE [] c.th = 5 -> FALSE [] OTHER -> sev <= c.th

Through(c, d) ==
  LET l == Level(c, d.t)
      sev == IF l \in 1..4 THEN l ELSE d.sev IN
  IF l = 5 \/ ~Shown(c, sev) THEN <<>> ELSE <<[d EXCEPT !.sev = sev]>>

BadFile == [t |-> "", sev |-> 1, id |-> 0]     \* raised for a file that cannot be read
Op(k, c, d) == [k |-> k, conf |-> c, d |-> d]
NoD == [t |-> "", sev |-> 0, id |-> 0]

Apply(o) ==
  CASE o.k = "load" -> conf' = o.conf /\ kept' = kept
    [] o.k = "bad" -> conf' = conf /\ kept' = kept \o Through(conf, BadFile)
    [] o.k = "auto" -> conf' = o.conf /\ kept' = kept
    [] o.k = "noauto" -> conf' = conf /\ kept' = kept
    [] o.k = "raise" -> conf' = conf /\ kept' = kept \o Through(conf, o.d)

Confs == {[th |-> th, lv |-> lv] : th \in 1..6, lv \in {<<>>} \cup {<<[t |-> t, l |-> l]>> : t \in Types, l \in 1..6}
                                                        \cup {<<[t |-> "t1", l |-> l], [t |-> "t2", l |-> m]>> : l \in 1..6, m \in 1..6}}
Raises == {[t |-> t, sev |-> s, id |-> 0] : t \in Types \cup {""}, s \in 1..4}
Count(k) == Cardinality({i \in 1..Len(ops) : ops[i].k = k})

Init == /\ IF Mode = "gen" THEN cid = 0 /\ script = <<>> ELSE cid \in 1..Len(Cases) /\ script = Cases[cid].ops
        /\ conf = Unset /\ kept = <<>> /\ ops = <<>> /\ status = "run"
Load == /\ Mode = "gen" /\ status = "run" /\ Count("load") < MaxCfg /\ Count("raise") = 0
        /\ \E c \in Confs : Apply(Op("load", c, NoD)) /\ ops' = Append(ops, Op("load", c, NoD))
        /\ UNCHANGED <<cid, script, status>>
Raise == /\ Mode = "gen" /\ status = "run" /\ Count("raise") < MaxRaise
         /\ \E d \in Raises : LET dd == [d EXCEPT !.id = Len(ops) + 1] IN
              Apply(Op("raise", Unset, dd)) /\ ops' = Append(ops, Op("raise", Unset, dd))
         /\ UNCHANGED <<cid, script, status>>
Play == /\ Mode = "cases" /\ status = "run" /\ script # <<>>
        /\ Apply(Head(script)) /\ script' = Tail(script) /\ ops' = Append(ops, Head(script))
        /\ UNCHANGED <<cid, status>>
Report == /\ status = "run" /\ IF Mode = "gen" THEN Count("raise") = MaxRaise ELSE script = <<>>
          /\ Emit([cid |-> cid, ops |-> IF Mode = "gen" THEN ops ELSE <<>>, kept |-> kept])
          /\ status' = "reported" /\ UNCHANGED <<cid, script, conf, kept, ops>>
Next == Load \/ Raise \/ Play \/ Report

Raised == SelectSeq(ops, LAMBDA o : o.k = "raise")
Inv ==
  /\ Len(kept) <= Len(ops)
  \* what is kept was raised, in the order it was raised
  /\ \A i \in 1..Len(kept) : kept[i].id # 0 => \E j \in 1..Len(ops) : ops[j].k = "raise" /\ ops[j].d.id = kept[i].id /\ ops[j].d.t = kept[i].t
  /\ \A i, j \in 1..Len(kept) : (i < j /\ kept[i].id # 0 /\ kept[j].id # 0) => kept[i].id < kept[j].id
  \* unnamed diagnostics keep their severity
  /\ \A i \in 1..Len(kept) : kept[i].id # 0 /\ kept[i].t = "" => \E j \in 1..Len(ops) : ops[j].d.id = kept[i].id /\ ops[j].d.sev = kept[i].sev
  \* nothing is lost when nothing is configured
  /\ (~\E j \in 1..Len(ops) : ops[j].k \in {"load", "auto"}) => Len(SelectSeq(kept, LAMBDA d : d.id # 0)) = Len(Raised)
==============================================================================
