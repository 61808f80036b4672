-------------------------------- MODULE Names --------------------------------
(* What the names in the bodies of procs stand for, and of which type the      *)
(* values are as far as declarations tell.  A case is a program (Program.tla): *)
(*   vars   [ty, name, n, t]: a var declared by type ty (0: a global) to be of *)
(*          type t (0: of any), or, if n > 0, a list in a list ... of such     *)
(*   procs  [ty, name, decl, params: [name, n, t], ret, as, body]              *)
(*   list, mob  the types of lists and of usr                                  *)
(* The body is a sequence of statements, each with expressions to evaluate,    *)
(* then variables which come into being, then more expressions, and a block    *)
(* which it opens or closes.                                                   *)
EXTENDS Program

VARIABLES status, p, at, scopes, out
vars == <<cid, status, p, at, scopes, out>>

(* Static types: <<lists around it, type>>. *)
None == <<0, 0>>
Open == <<0, -1>>       \* what the specification leaves undetermined
Norm(t) == IF t = <<0, C.list>> THEN <<1, 0>> ELSE t
Basic(t) == IF t[1] > 0 THEN C.list ELSE t[2]
Element(t) == IF t[1] > 0 THEN <<t[1] - 1, t[2]>> ELSE None
RECURSIVE Strip(_, _)
Strip(t, k) == IF k = 0 THEN t ELSE Strip(Element(t), k - 1)

(* The nearest declaration of a var, going up; globals come last.              *)
OwnVar(t, n) == LET S == {i \in 1..Len(C.vars) : C.vars[i].ty = t /\ C.vars[i].name = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
RECURSIVE FindVar(_, _)
FindVar(t, n) == IF t = 0 THEN 0 ELSE IF OwnVar(t, n) # 0 THEN OwnVar(t, n) ELSE FindVar(C.parents[t], n)
VarType(i) == Norm(<<C.vars[i].n, C.vars[i].t>>)
FindProc(t, n) == LET r == IF t = 0 THEN 0 ELSE Resolve(t, n) IN IF r # 0 /\ P(r).ty = Global THEN 0 ELSE r

RECURSIVE Local(_, _)
Local(ss, n) ==
  IF ss = <<>> THEN <<>>
  ELSE LET S == {i \in 1..Len(Last(ss)) : Last(ss)[i].name = n} IN
       IF S # {} THEN <<Last(ss)[CHOOSE i \in S : \A j \in S : j <= i].ty>> ELSE Local(Front(ss), n)

(* What an expression is: its type, the type it names if it is a path, and     *)
(* what there is to say about it, surely and possibly.                         *)
R(ty, val, must, may) == [ty |-> ty, val |-> val, must |-> must, may |-> may]
Say(r, ty, w) == R(ty, 0, Append(r.must, w), r.may)
Perhaps(r) == R(r.ty, r.val, <<>>, r.must \o r.may)
With(r, rs) == R(r.ty, r.val, Flatten([i \in 1..Len(rs) |-> rs[i].must]) \o r.must, Flatten([i \in 1..Len(rs) |-> rs[i].may]) \o r.may)
Plain(ty) == R(ty, 0, <<>>, <<>>)

(* The type a call returns: by the annotation on the proc itself, or by the    *)
(* one in the declaration it follows.                                          *)
As(q) == LET S == {o \in Chain(q) : P(o).decl /\ P(o).as # None} IN IF S = {} THEN None ELSE P(CHOOSE o \in S : TRUE).as
Argument(q, i, args, named) ==
  LET S == {j \in 1..Len(named) : named[j].name = P(q).params[i].name} IN
  IF S # {} THEN <<named[CHOOSE j \in S : TRUE].r>> ELSE IF i <= Len(args) THEN <<args[i]>> ELSE <<>>
RECURSIVE Returned(_, _, _, _)
Returned(x, q, args, named) ==
  CASE x.k = "type" -> Norm(<<x.n, x.t>>)
    [] x.k = "null" -> None
    [] x.k = "param" -> LET a == Argument(q, x.i, args, named) IN IF a = <<>> THEN None ELSE IF a[1].ty = Open THEN Open ELSE IF a[1].val = 0 THEN None ELSE Norm(<<0, a[1].val>>)
    [] x.k = "ptype" -> LET a == Argument(q, x.i, args, named) IN IF a = <<>> THEN None ELSE IF a[1].ty = Open THEN Open ELSE Strip(a[1].ty, x.n)
    [] x.k = "or" -> LET a == Returned(x.a, q, args, named) IN IF a = None THEN Returned(x.b, q, args, named) ELSE a
    [] x.k = "and" -> LET a == Returned(x.a, q, args, named) IN IF a \in {None, Open} THEN a ELSE Returned(x.b, q, args, named)
    [] OTHER -> LET a == Returned(x.c, q, args, named) IN IF a = Open THEN Open ELSE IF a = None THEN Returned(x.b, q, args, named) ELSE Returned(x.a, q, args, named)
ReturnType(q, args, named) ==
  IF P(q).ret.k # "none" THEN Returned(P(q).ret, q, args, named)
  ELSE IF As(q) # None THEN Norm(As(q))
  ELSE IF \E o \in Chain(q) : P(o).ret.k # "none" THEN Open ELSE None

RECURSIVE Eval(_, _, _)
Evals(es, ss) == [i \in 1..Len(es) |-> Eval(es[i], None, ss)]
NamedOf(ks, ss) == [i \in 1..Len(ks) |-> [name |-> ks[i].name, r |-> Eval(ks[i].e, None, ss)]]

(* A call of proc q, found; or of a proc not found, about which w is said, and *)
(* whose arguments need not be looked at.                                      *)
Call(q, e, ss) ==
  LET args == Evals(e.args, ss) named == NamedOf(e.kws, ss) IN
  With(Plain(ReturnType(q, args, named)), args \o [i \in 1..Len(named) |-> named[i].r])
NoCall(w, e, ss) ==
  With(R(Open, 0, <<w>>, <<>>), [i \in 1..Len(e.args) |-> Perhaps(Eval(e.args[i], None, ss))] \o [i \in 1..Len(e.kws) |-> Perhaps(Eval(e.kws[i].e, None, ss))])
Visit(e, ss) == With(Plain(Open), Evals(e.args, ss) \o [i \in 1..Len(e.kws) |-> Eval(e.kws[i].e, None, ss)])

Eval(e, hint, ss) ==
  CASE e.k = "value" -> Plain(None)
    [] e.k = "path" -> IF e.t = 0 THEN R(Open, 0, <<<<"path", e.n, 0>>>>, <<>>) ELSE R(None, e.t, <<>>, <<>>)
    [] e.k = "name" ->
         LET l == Local(ss, e.n) v == FindVar(P(p).ty, e.n) g == OwnVar(0, e.n) IN
         IF l # <<>> THEN Plain(l[1])
         ELSE IF v # 0 THEN Plain(VarType(v))
         ELSE IF g # 0 THEN Plain(VarType(g))
         ELSE Say(Plain(Open), Open, <<"var", e.n, 0>>)
    [] e.k = "gname" -> LET g == OwnVar(0, e.n) IN IF g # 0 THEN Plain(VarType(g)) ELSE Say(Plain(Open), Open, <<"gvar", e.n, 0>>)
    [] e.k = "paren" -> Eval(e.a, hint, ss)
    [] e.k = "group" -> With(Plain(IF Has(e.n, "list") THEN <<1, 0>> ELSE None), Evals(e.args, ss))
    [] e.k = "builtin" -> With(Plain(Norm(<<e.n, e.t>>)), Evals(e.args, ss))
    [] e.k = "call" ->
         LET q == FindProc(P(p).ty, e.n) g == Own(Global, e.n) IN
         IF q # 0 THEN Call(q, e, ss) ELSE IF g # 0 THEN Call(g, e, ss) ELSE NoCall(<<"proc", e.n, P(p).ty>>, e, ss)
    [] e.k = "gcall" -> LET g == Own(Global, e.n) IN IF g # 0 THEN Call(g, e, ss) ELSE NoCall(<<"gproc", e.n, 0>>, e, ss)
    [] e.k = "again" -> Call(p, e, ss)
    [] e.k = "parent" -> IF Previous(p) # 0 THEN Call(Previous(p), e, ss) ELSE NoCall(<<"noparent", "", 0>>, e, ss)
    [] e.k = "field" ->
         LET o == Eval(e.a, None, ss) b == Basic(o.ty) v == FindVar(b, e.n) IN
         IF ~e.strict THEN With(Plain(Open), <<o>>)
         ELSE IF b = -1 THEN R(Open, 0, o.must, Append(o.may, <<"afield", e.n, 0>>))
         ELSE IF b = 0 THEN Say(o, Open, <<"sfield", e.n, 0>>)
         ELSE IF v = 0 THEN Say(o, Open, <<"field", e.n, b>>)
         ELSE R(VarType(v), 0, o.must, o.may)
    [] e.k = "static" ->
         LET o == Eval(e.a, None, ss) b == IF Basic(o.ty) = 0 THEN o.val ELSE Basic(o.ty) v == FindVar(b, e.n) IN
         IF b \in {0, -1} THEN R(Open, 0, o.must, Append(o.may, <<"afield", e.n, 0>>))
         ELSE IF v = 0 THEN Say(o, Open, <<"field", e.n, b>>)
         ELSE R(VarType(v), 0, o.must, o.may)
    [] e.k = "mcall" ->
         LET o == Eval(e.a, None, ss) b == Basic(o.ty) q == FindProc(b, e.n) IN
         IF ~e.strict THEN With(Visit(e, ss), <<o>>)
         ELSE IF b = -1 THEN With(R(Open, 0, <<>>, <<<<"aproc", e.n, 0>>>>), <<o, Perhaps(Visit(e, ss))>>)
         ELSE IF b = 0 THEN With(NoCall(<<"sproc", e.n, 0>>, e, ss), <<o>>)
         ELSE IF q = 0 THEN With(NoCall(<<"proc", e.n, b>>, e, ss), <<o>>)
         ELSE With(Call(q, e, ss), <<o>>)
    [] e.k = "index" ->
         LET o == Eval(e.a, None, ss) i == Eval(e.b, None, ss) q == FindProc(Basic(o.ty), "operator[]") IN
         IF o.ty = Open THEN With(R(Open, 0, <<>>, <<<<"aindex", "", 0>>>>), <<o, i>>)
         ELSE IF o.ty[1] > 0 THEN With(Plain(Norm(Element(o.ty))), <<o, i>>)
         ELSE IF o.ty = None THEN With(Plain(None), <<o, i>>)
         ELSE IF q = 0 THEN With(R(Open, 0, <<<<"index", "", o.ty[2]>>>>, <<>>), <<o, i>>)
         ELSE With(Plain(ReturnType(q, <<i>>, <<>>)), <<o, i>>)
    [] e.k = "new" ->
         IF e.t = 0 THEN NoCall(<<"path", e.n, 0>>, e, ss)
         ELSE IF e.t = -1 /\ hint = Open THEN With(R(Open, 0, <<>>, <<<<"hint", "", 0>>>>), <<Perhaps(Visit(e, ss))>>)
         ELSE IF e.t = -1 /\ hint = None THEN NoCall(<<"hint", "", 0>>, e, ss)
         ELSE Visit(e, ss)
    [] e.k = "bin" ->
         LET a == Eval(e.a, None, ss) b == Eval(e.b, None, ss) IN
         With(Plain(IF a.ty = Open THEN Open ELSE IF a.ty[1] > 0 /\ e.n \in {"+", "-", "|", "&", "^"} THEN a.ty ELSE None), <<a, b>>)
    [] e.k = "or" -> With(Plain(Open), <<Eval(e.a, hint, ss), Eval(e.b, hint, ss)>>)
    [] e.k = "and" -> With(Plain(Open), <<Eval(e.a, None, ss), Eval(e.b, None, ss)>>)
    [] e.k = "choice" ->
         LET a == Eval(e.a, hint, ss) b == Eval(e.b, hint, ss) IN
         With(Plain(IF a.ty = b.ty THEN a.ty ELSE Open), <<Eval(e.c, None, ss), a, b>>)
    [] e.k = "step" ->
         LET o == Eval(e.a, None, ss) q == FindProc(Basic(o.ty), e.n) IN
         IF o.ty = Open THEN R(Open, 0, o.must, Append(o.may, <<"aincr", e.n, 0>>))
         ELSE IF o.ty = None THEN R(None, 0, o.must, o.may)
         ELSE IF q = 0 THEN Say(o, Open, <<"incr", e.n, IF o.ty[1] > 0 THEN 0 ELSE o.ty[2]>>)
         ELSE R(ReturnType(q, <<>>, <<>>), 0, o.must, o.may)
    [] OTHER -> \* "assign"
         LET a == Eval(e.a, None, ss) IN
         With(Plain(Open), <<a, Eval(e.b, IF e.n = "=" THEN a.ty ELSE Open, ss)>>)

(* Running through the bodies. *)
Typed(b) == IF b.t = -1 THEN None ELSE Norm(<<b.n, b.t>>)
Fixed == <<[name |-> ".", ty |-> None], [name |-> "args", ty |-> <<1, 0>>], [name |-> "usr", ty |-> <<0, C.mob>>]>>
First(q) == Fixed \o (IF P(q).ty = Global THEN <<>> ELSE <<[name |-> "src", ty |-> <<0, P(q).ty>>]>>)
            \o [i \in 1..Len(P(q).params) |-> [name |-> P(q).params[i].name, ty |-> Typed(P(q).params[i])]]

Init == cid \in 1..Len(Cases) /\ status = "start" /\ p = 0 /\ at = 0 /\ scopes = <<>> /\ out = <<>>

Enter(q) == p' = q /\ at' = 1 /\ scopes' = IF q \in Procs THEN <<First(q)>> ELSE <<>>
Begin == status = "start" /\ status' = "run" /\ Enter(1) /\ UNCHANGED <<cid, out>>

(* Variables come into being one after the other, each after its value. *)
RECURSIVE Bind(_, _, _)
Bind(bs, ss, rs) ==
  IF bs = <<>> THEN <<ss, rs>>
  ELSE LET b == Head(bs) ty == Typed(b)
           r == IF b.e.k = "none" THEN Plain(None) ELSE Eval(b.e, ty, ss)
           r2 == IF b.t = -1 THEN Say(r, Open, <<"type", "", 0>>) ELSE r IN
       Bind(Tail(bs), Append(Front(ss), Append(Last(ss), [name |-> b.name, ty |-> ty])), Append(rs, r2))

(* Only some values can be gone through. *)
Iterated(t) ==
  IF t = Open THEN <<<<>>, <<<<"aiter", "", 0>>>>>>
  ELSE IF t = None \/ t[1] > 0 THEN <<<<>>, <<>>>>
  ELSE IF C.atom # 0 /\ Under(t[2], C.atom) THEN <<<<>>, <<>>>>
  ELSE IF C.atom # 0 /\ Under(C.atom, t[2]) THEN <<<<<<"hintiter", "", 0>>>>, <<>>>>
  ELSE <<<<<<"iter", "", t[2]>>>>, <<>>>>

Step ==
  /\ status = "run" /\ p \in Procs /\ at <= Len(P(p).body)
  /\ LET s == P(p).body[at]
         outer == IF s.close THEN Front(scopes) ELSE scopes
         before == Evals(s.before, outer)
         iter == IF s.iter THEN Iterated(Last(before).ty) ELSE <<<<>>, <<>>>>
         inner == IF s.open THEN Append(outer, <<>>) ELSE outer
         bound == Bind(s.binds, inner, <<>>)
         after == Evals(s.after, bound[1])
         all == With(Plain(None), before \o bound[2] \o after) IN
     /\ scopes' = bound[1]
     /\ out' = out \o [i \in 1..Len(all.must \o iter[1]) |-> <<s.line, "must", (all.must \o iter[1])[i]>>]
                   \o [i \in 1..Len(all.may \o iter[2]) |-> <<s.line, "may", (all.may \o iter[2])[i]>>]
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, p>>
NextProc == status = "run" /\ p \in Procs /\ at > Len(P(p).body) /\ Enter(p + 1) /\ UNCHANGED <<cid, status, out>>
Report == status = "run" /\ p \notin Procs /\ Emit([cid |-> cid, out |-> out]) /\ status' = "done" /\ UNCHANGED <<cid, p, at, scopes, out>>
Next == Begin \/ Step \/ NextProc \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* Blocks nest: the procs' own scope outlives all blocks, and closes with them.*)
Inv == /\ (status = "run" /\ p \in Procs) => Len(scopes) >= 1
       /\ (status = "run" /\ p \in Procs /\ at > Len(P(p).body)) => Len(scopes) = 1
==============================================================================
