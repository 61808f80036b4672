------------------------------ MODULE ConstRefs -------------------------------
(* Constants that refer to one another.  Variables are evaluated one at a     *)
(* time, in any order, each as soon as everything its value needs is known;   *)
(* a variable that can never be evaluated is on a reference cycle or depends  *)
(* on one.  The outcome must not depend on the order.                         *)
(*                                                                            *)
(* A program is a sequence of types [p: path, up: index of the parent type (0 *)
(* for none), vars: sequence of [x: name, e: expression, decl: declared here, *)
(* st: not evaluable, con: const, ty: declared type]].  Type 1 is the global  *)
(* scope.  y.x, where y is null but declared to hold a type, is the const x   *)
(* of that type.                                                              *)
EXTENDS Fold

CONSTANT AnyOrder      \* evaluate in every order, or in one

VARIABLES cid, val, status
vars == <<cid, val, status>>

Types == Cases[cid].types
RECURSIVE Index(_, _)          \* of name x in vars vs, 0 if absent
Index(vs, x) == IF vs = <<>> THEN 0 ELSE IF Last(vs).x = x THEN Len(vs) ELSE Index(Front(vs), x)
Slots == {<<t, i>> \in UNION {{<<t, i>> : i \in 1..Len(Types[t].vars)} : t \in 1..Len(Types)} : TRUE}

Names == {Types[s[1]].vars[s[2]].x : s \in Slots} \cup {"aa", "bb", "cc", "dd"}
Scopes == {Types[t].p : t \in 2..Len(Types)} \cup {"type", "parent_type"}

RECURSIVE Declared(_, _)       \* declared on t or an ancestor
Declared(t, x) == t # 0 /\ (LET i == Index(Types[t].vars, x) IN
                            (i # 0 /\ Types[t].vars[i].decl) \/ Declared(Types[t].up, x))
RECURSIVE DeclSlot(_, _)
DeclSlot(t, x) == LET i == Index(Types[t].vars, x) IN
                  IF i # 0 /\ Types[t].vars[i].decl THEN Types[t].vars[i] ELSE DeclSlot(Types[t].up, x)
RECURSIVE Slot(_, _)           \* the nearest definition of x seen from t
Slot(t, x) == IF t = 0 \/ ~Declared(t, x) THEN <<0, 0>>
              ELSE LET i == Index(Types[t].vars, x) IN IF i # 0 THEN <<t, i>> ELSE Slot(Types[t].up, x)
TypeAt(p) == IF \E t \in 1..Len(Types) : Types[t].p = p THEN CHOOSE t \in 1..Len(Types) : Types[t].p = p ELSE 0

ValueOf(s) == IF s = <<0, 0>> THEN Err ELSE val[s]
EvalAt(s) ==
  LET t == s[1]
      v == Types[t].vars[s[2]]
      From(p, x) == LET q == IF p = "type" THEN t ELSE IF p = "parent_type" THEN Types[t].up ELSE TypeAt(p) IN
                    IF q = 0 THEN Err ELSE ValueOf(Slot(q, x))
      Field(y, x) == LET b == ValueOf(Slot(t, y)) IN
                     IF ~Lit(b) THEN b ELSE IF b.k # "null" THEN Err
                     ELSE IF b.h = "" THEN OpenV ELSE IF TypeAt(b.h) = 0 THEN Err
                     ELSE LET s2 == Slot(TypeAt(b.h), x) IN
                          IF s2 = <<0, 0>> \/ ~DeclSlot(s2[1], x).con THEN Err ELSE ValueOf(s2)
      env == [look |-> [x \in Names |-> ValueOf(Slot(t, x))], from |-> [px \in Scopes \X Names |-> From(px[1], px[2])],
              fld |-> [yx \in Names \X Names |-> Field(yx[1], yx[2])]]
      RECURSIVE Leaf(_)
      Leaf(e) == IF e.k # "if" THEN e ELSE LET c == Eval(e.a[1], env) IN IF ~Lit(c) THEN e ELSE Leaf(e.a[IF Truthy(c) THEN 2 ELSE 3]) IN
  IF ~Declared(t, v.x) THEN Err
  ELSE IF DeclSlot(t, v.x).st THEN Err
  ELSE LET r == Eval(v.e, env) IN IF Leaf(v.e).k = "null" THEN [r EXCEPT !.h = DeclSlot(t, v.x).ty] ELSE r

Init == /\ cid \in 1..Len(Cases) /\ val = [s \in Slots |-> Wait] /\ status = "run"
Ready == {s \in Slots : val[s].k = "wait" /\ EvalAt(s).k # "wait"}
Step == /\ status = "run"
        /\ \E s \in (IF AnyOrder \/ Ready = {} THEN Ready ELSE {CHOOSE r \in Ready : TRUE}) : val' = [val EXCEPT ![s] = EvalAt(s)]
        /\ UNCHANGED <<cid, status>>
Stop == /\ status = "run" /\ Ready = {}
        /\ status' = "done" /\ UNCHANGED <<cid, val>>
Report == /\ status = "done"
          /\ Emit([cid |-> cid, vals |-> [t \in 1..Len(Types) |-> [i \in 1..Len(Types[t].vars) |-> val[<<t, i>>]]]])
          /\ status' = "reported" /\ UNCHANGED <<cid, val>>
Next == Step \/ Stop \/ Report

(* A value, once given, is the one its initializer has: no later value changes it. *)
Inv == \A s \in Slots : val[s].k # "wait" => val[s] = EvalAt(s)
==============================================================================
