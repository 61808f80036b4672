------------------------------ MODULE Navigate ------------------------------
(* Which declaration every name in a program stands for, as an editor is told. *)
(* A case is a program (Program.tla) where names in bodies carry numbers o:    *)
(*   vars   [ty, name, n, t, decl, e]: type ty gives var name a value (ty 0: a *)
(*          global); where decl, it declares it with n lists around type t     *)
(*   procs  [ty, name, decl, params: [name, n, t, o, b, e], body]              *)
(*   list, mob  the types of lists and of usr                                  *)
(* A body is a sequence of statements with expressions to evaluate, variables  *)
(* which come into being, more expressions, and a block opened or closed.      *)
(* Before a statement somebody may start to type another, whether a name (of   *)
(* one or of nothing in particular) or a call: asks [id, k, a, n], where k is  *)
(* "any", "of" (a member of a), "call" (n), "callof" (n on a), or a path under *)
(* type t: "path", or "procs" after proc/.  In tree are those who declare       *)
(* something on type t.  paths[t] is the type's path: the one above, its name.  *)
EXTENDS Program

VARIABLES status, p, at, scopes, out, told
vars == <<cid, status, p, at, scopes, out, told>>

None == <<0, 0>>
Open == <<0, -1>>
Norm(t) == IF t = <<0, C.list>> THEN <<1, 0>> ELSE t
Basic(t) == IF t[1] > 0 THEN C.list ELSE t[2]
Element(t) == IF t[1] > 0 THEN <<t[1] - 1, t[2]>> ELSE None

VarsOf(t, n) == {i \in 1..Len(C.vars) : C.vars[i].ty = t /\ C.vars[i].name = n}
RECURSIVE Near(_, _), Declared(_, _)
(* The nearest value of a var going up, and its declaration. *)
Near(t, n) == LET S == VarsOf(t, n) IN IF S # {} THEN CHOOSE i \in S : TRUE ELSE IF t = 0 THEN 0 ELSE Near(C.parents[t], n)
Declared(t, n) ==
  LET S == {i \in VarsOf(t, n) : C.vars[i].decl} IN
  IF S # {} THEN CHOOSE i \in S : TRUE ELSE IF t = 0 THEN 0 ELSE Declared(C.parents[t], n)
(* Not counting globals, which are no members of any type. *)
Member(t, n) == IF t <= 0 THEN 0 ELSE LET i == Declared(t, n) IN IF i = 0 \/ C.vars[i].ty = 0 THEN 0 ELSE i
VarType(i) == Norm(<<C.vars[i].n, C.vars[i].t>>)
FindProc(t, n) == LET r == IF t <= 0 THEN 0 ELSE Resolve(t, n) IN IF r # 0 /\ P(r).ty = Global THEN 0 ELSE r
DeclOf(q) == LET S == {o \in Chain(q) : P(o).decl} IN IF S = {} THEN 0 ELSE CHOOSE o \in S : TRUE

RECURSIVE Local(_, _)
Local(ss, n) ==
  IF ss = <<>> THEN <<>>
  ELSE LET S == {i \in 1..Len(Last(ss)) : Last(ss)[i].name = n} IN
       IF S # {} THEN <<Last(ss)[CHOOSE i \in S : \A j \in S : j <= i]>> ELSE Local(Front(ss), n)

(* An expression's type, and what the names in it stand for: the declaration,  *)
(* and the nearest definition, which is where an editor goes.                  *)
R(ty, uses) == [ty |-> ty, uses |-> uses]
(* A chain of bare names; after anything else an editor need not know.        *)
RECURSIVE Plain(_)
Plain(e) == e.k \in {"name", "gname"} \/ (e.k = "field" /\ Plain(e.a))
Use(o, kind, decl, near) == <<o, kind, decl, near, TRUE>>
Dim(us) == [i \in 1..Len(us) |-> <<us[i][1], us[i][2], us[i][3], us[i][4], FALSE>>]
Unknown(e) == <<Use(e.o, "open", 0, 0)>>
UseVar(e, t, i) == <<Use(e.o, "var", i, Near(t, e.n))>>
UseProc(e, q) == <<Use(e.o, "proc", DeclOf(q), q)>>
UseType(o, t) == IF o = 0 THEN <<>> ELSE <<Use(o, "type", t, t)>>
Uses(rs) == Flatten([i \in 1..Len(rs) |-> rs[i].uses])

RECURSIVE Eval(_, _, _)
Evals(es, ss) == [i \in 1..Len(es) |-> Eval(es[i], None, ss)]
Args(e, ss) == Uses(Evals(e.args, ss))

Eval(e, hint, ss) ==
  CASE e.k = "value" -> R(None, <<>>)
    [] e.k = "path" -> R(None, UseType(e.o, e.t))
    [] e.k = "procpath" -> R(None, UseType(e.o2, e.t) \o UseProc(e, FindProc(e.t, e.n)))
    [] e.k = "name" ->
         LET l == Local(ss, e.n) i == Declared(P(p).ty, e.n) IN
         IF l # <<>> THEN R(l[1].ty, <<Use(e.o, "local", l[1].b, 0)>>)
         ELSE IF i = 0 THEN R(Open, Unknown(e))
         ELSE R(VarType(i), UseVar(e, P(p).ty, i))
    [] e.k = "global" -> R(None, <<>>)
    [] e.k = "gname" -> LET i == Declared(0, e.n) IN IF i = 0 THEN R(Open, Unknown(e)) ELSE R(VarType(i), UseVar(e, 0, i))
    [] e.k = "paren" -> Eval(e.a, hint, ss)
    [] e.k = "group" -> R(None, Args(e, ss))
    [] e.k = "list" -> R(<<1, 0>>, Args(e, ss))
    [] e.k = "call" ->
         LET q == FindProc(P(p).ty, e.n) g == Own(Global, e.n) IN
         R(Open, (IF q # 0 THEN UseProc(e, q) ELSE IF g # 0 THEN UseProc(e, g) ELSE Unknown(e)) \o Args(e, ss))
    [] e.k = "gcall" -> LET g == Own(Global, e.n) IN R(Open, (IF g # 0 THEN UseProc(e, g) ELSE Unknown(e)) \o Args(e, ss))
    [] e.k = "again" -> R(Open, Args(e, ss))
    [] e.k = "parent" -> R(Open, <<Use(e.o, "parent", 0, Previous(p))>> \o Args(e, ss))
    [] e.k = "field" ->
         LET o == Eval(e.a, None, ss) i == Member(Basic(o.ty), e.n) IN
         R(IF i = 0 THEN Open ELSE VarType(i), o.uses \o IF i = 0 THEN Unknown(e) ELSE IF Plain(e.a) THEN UseVar(e, Basic(o.ty), i) ELSE Dim(UseVar(e, Basic(o.ty), i)))
    [] e.k = "mcall" ->
         LET o == Eval(e.a, None, ss) q == FindProc(Basic(o.ty), e.n) IN
         R(Open, o.uses \o (IF q = 0 THEN Unknown(e) ELSE IF Plain(e.a) THEN UseProc(e, q) ELSE Dim(UseProc(e, q))) \o Args(e, ss))
    [] e.k = "index" ->
         LET o == Eval(e.a, None, ss) i == Eval(e.b, None, ss) IN
         R(IF o.ty = Open THEN Open ELSE IF o.ty[1] > 0 THEN Norm(Element(o.ty)) ELSE Open, o.uses \o i.uses)
    [] e.k = "new" -> R(IF e.t = -1 THEN Open ELSE <<0, e.t>>, UseType(e.o, e.t) \o Args(e, ss))
    [] e.k = "make" -> R(Open, Dim(Eval(e.a, None, ss).uses) \o Args(e, ss))
    [] e.k = "prefab" ->
         LET i == Member(e.t, e.n) IN
         R(None, UseType(e.o, e.t) \o (IF i = 0 THEN <<Use(e.o2, "open", 0, 0)>> ELSE Dim(<<Use(e.o2, "var", i, Near(e.t, e.n))>>)) \o Eval(e.a, IF i = 0 THEN None ELSE VarType(i), ss).uses)
    [] e.k = "type" -> R(None, IF P(p).ty = 0 THEN <<>> ELSE Dim(UseType(e.o, P(p).ty)))
    [] e.k = "proc" -> R(None, Dim(UseProc(e, p)))
    [] e.k = "ref" ->
         LET o == Eval(e.a, None, ss) q == FindProc(Basic(o.ty), e.n) IN
         R(Open, o.uses \o (IF q = 0 THEN Unknown(e) ELSE Dim(UseProc(e, q))))
    [] e.k = "choice" -> R(Open, Eval(e.c, None, ss).uses \o Eval(e.a, hint, ss).uses \o Eval(e.b, hint, ss).uses)
    [] e.k = "bin" -> R(Open, Eval(e.a, None, ss).uses \o Eval(e.b, None, ss).uses)
    [] OTHER -> \* "assign"
         R(Open, Eval(e.a, None, ss).uses \o Eval(e.b, None, ss).uses)

(* What can be named by one who types: each name once, and where it leads, in  *)
(* the nearest definition; globals are everybody's but members of nothing.     *)
Names(seq) == {seq[i].name : i \in 1..Len(seq)}
VarOffers(t) == {<<n, "var", C.vars[Near(t, n)].ty>> : n \in {m \in Names(C.vars) : Near(t, m) # 0}}
ProcOffers(t) == {<<n, "proc", P(Resolve(t, n)).ty>> : n \in {m \in Names(C.procs) : Resolve(t, m) # 0}}
Shown(t) == VarOffers(t) \cup ProcOffers(t)
Locals(ss) == {<<v.name, "local", 0>> : v \in {u \in UNION {{ss[i][j] : j \in 1..Len(ss[i])} : i \in 1..Len(ss)} : u.b # 0}}
NotGlobal(S) == {x \in S : x[3] # 0}
Keyword(S) == {<<n, "keyword", 0>> : n \in S}
Children(t) == {<<C.paths[s].name, "type", 0>> : s \in {x \in Types : C.paths[x].under = t}}
Declares(t) == {<<n, "proc", P(DeclOf(Resolve(t, n))).ty>> : n \in {x[1] : x \in IF t = 0 THEN ProcOffers(0) ELSE NotGlobal(ProcOffers(t))}}
PathOffers(k, t) ==
  CASE k = "path" -> Keyword({"proc", "verb"}) \cup Children(t)
    [] k = "procs" -> Declares(t)
    [] OTHER -> Keyword({"proc", "verb", "var"}) \cup Children(t) \cup IF t = 0 THEN {} ELSE NotGlobal(Shown(t))
Params(q) == [i \in 1..Len(P(q).params) |-> P(q).params[i].name]
Answer(a, ss) ==
  LET base == IF a.k \notin {"of", "callof"} THEN [ty |-> None] ELSE Eval(a.a, None, ss)
      known == base.ty # Open
      global == a.k \in {"of", "callof"} /\ a.a.k = "global"
      t == IF known THEN Basic(base.ty) ELSE 0
      q == IF a.k = "call" THEN Resolve(P(p).ty, a.n) ELSE IF global THEN Own(Global, a.n) ELSE IF t = 0 THEN 0 ELSE FindProc(t, a.n) IN
  IF a.k \in {"path", "procs", "tree"} THEN [id |-> a.id, known |-> TRUE, names |-> PathOffers(a.k, a.t), proc |-> 0, params |-> <<>>]
  ELSE IF ~known THEN [id |-> a.id, known |-> FALSE, names |-> {}, proc |-> 0, params |-> <<>>]
  ELSE [id |-> a.id, known |-> TRUE,
        names |-> IF a.k = "any" THEN Locals(ss) \cup Shown(P(p).ty) ELSE IF a.k # "of" THEN {} ELSE IF global THEN Shown(0) ELSE IF t = 0 THEN {} ELSE NotGlobal(Shown(t)),
        proc |-> IF a.k \in {"call", "callof"} THEN q ELSE 0,
        params |-> IF a.k \in {"call", "callof"} /\ q # 0 THEN Params(q) ELSE <<>>]

(* The values of vars, then running through the bodies. *)
Fixed(q) == <<[name |-> "usr", ty |-> <<0, C.mob>>, b |-> 0]>> \o IF P(q).ty = Global THEN <<>> ELSE <<[name |-> "src", ty |-> <<0, P(q).ty>>, b |-> 0]>>
Typed(b) == Norm(<<b.n, b.t>>)

Init == cid \in 1..Len(Cases) /\ status = "start" /\ p = 0 /\ at = 0 /\ scopes = <<>> /\ out = <<>> /\ told = <<>>

(* Variables come into being one after the other, each after its value. *)
RECURSIVE Bind(_, _, _)
Bind(bs, ss, us) ==
  IF bs = <<>> THEN <<ss, us>>
  ELSE LET b == Head(bs) r == Eval(b.e, Typed(b), ss) IN
       Bind(Tail(bs), Append(Front(ss), Append(Last(ss), [name |-> b.name, ty |-> Typed(b), b |-> b.b])), us \o UseType(b.o, b.t) \o r.uses)

Enter(q) ==
  /\ p' = q /\ at' = 1
  /\ IF q \in Procs THEN \E v \in {Bind(P(q).params, <<Fixed(q)>>, <<>>)} : scopes' = v[1] /\ out' = out \o v[2]
     ELSE scopes' = <<>> /\ UNCHANGED out
(* Only paths occur in the values of vars. *)
Begin ==
  /\ status = "start" /\ status' = "values" /\ UNCHANGED <<cid, p, at, scopes>>
  /\ told' = [i \in 1..Len(C.tree) |-> Answer(C.tree[i], <<>>)]
  /\ out' = Flatten([i \in 1..Len(C.vars) |-> Eval(C.vars[i].e, None, <<>>).uses])
First == status = "values" /\ status' = "run" /\ LET q == 1 IN (p' = q /\ at' = 1
     /\ \E v \in {IF q \in Procs THEN Bind(P(q).params, <<Fixed(q)>>, <<>>) ELSE <<<<>>, <<>>>>} : scopes' = v[1] /\ out' = out \o v[2]) /\ UNCHANGED <<cid, told>>
Step ==
  /\ status = "run" /\ p \in Procs /\ at <= Len(P(p).body)
  /\ LET s == P(p).body[at]
         outer == IF s.close THEN Front(scopes) ELSE scopes
         before == Evals(s.before, outer)
         inner == IF s.open THEN Append(outer, <<>>) ELSE outer
         bound == Bind(s.binds, inner, <<>>)
         after == Evals(s.after, bound[1]) IN
     /\ scopes' = bound[1]
     /\ out' = out \o Uses(before) \o bound[2] \o Uses(after)
     /\ told' = told \o [i \in 1..Len(s.asks) |-> Answer(s.asks[i], scopes)]
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, p>>
NextProc == status = "run" /\ p \in Procs /\ at > Len(P(p).body) /\ Enter(p + 1) /\ UNCHANGED <<cid, status, told>>
Report == status = "run" /\ p \notin Procs /\ Emit([cid |-> cid, out |-> out, told |-> told]) /\ status' = "done" /\ UNCHANGED <<cid, p, at, scopes, out, told>>
Next == Begin \/ First \/ Step \/ NextProc \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* No occurrence is judged twice, and a definition belongs to its declaration. *)
Inv == status = "done" =>
  /\ \A i, j \in 1..Len(out) : i # j => out[i][1] # out[j][1]
  /\ \A i \in 1..Len(out) : out[i][2] = "var" => C.vars[out[i][3]].decl /\ C.vars[out[i][4]].name = C.vars[out[i][3]].name
       /\ (C.vars[out[i][3]].ty # 0 => Under(C.vars[out[i][4]].ty, C.vars[out[i][3]].ty))
  (* Whoever types a name in full is offered it, once and as what it stands for. *)
  /\ \A i \in 1..Len(told) : \A x, y \in told[i].names : x[1] = y[1] /\ x[2] = y[2] => x = y
  /\ \A i \in 1..Len(out) : out[i][2] = "proc" => out[i][3] # 0 /\ P(out[i][3]).decl /\ P(out[i][4]).name = P(out[i][3]).name
==============================================================================
