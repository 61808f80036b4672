------------------------------- MODULE ObjTree --------------------------------
(* Whole programs becoming an object tree.  A program is a sequence of        *)
(* statements [abs, path, end, v, body, line]: path is the sequence of names   *)
(* written, abs whether it starts with a slash, end what follows it ("none",  *)
(* "val": = value, "args": a proc, "block": nested statements).               *)
(* The machine walks the statements with a stack of contexts; then parents    *)
(* are assigned, cycles are cut, and lookups are defined over the result.     *)
EXTENDS VCommon

VARIABLES cid, stack, types, vs, ps, errs, par, status
vars == <<cid, stack, types, vs, ps, errs, par, status>>

Root == <<>>
Builtin == {<<"datum">>, <<"atom">>, <<"atom", "movable">>, <<"obj">>, <<"mob">>, <<"turf">>, <<"area">>,
            <<"client">>, <<"world">>, <<"list">>, <<"savefile">>, <<"image">>, <<"sound">>}
Rootless == {<<"datum">>, <<"list">>, <<"savefile">>, <<"world">>}     \* no parent, and none may be given
Fixed(p) == CASE p = <<"atom">> -> <<"datum">> [] p \in {<<"turf">>, <<"area">>} -> <<"atom">>
              [] p \in {<<"obj">>, <<"mob">>} -> <<"atom", "movable">> [] OTHER -> <<>>
ModNames == {"tmp", "const", "static", "global", "final", "SpacemanDMM_final", "SpacemanDMM_private", "SpacemanDMM_protected"}
Canon(m) == CASE m = "global" -> "static" [] m = "SpacemanDMM_final" -> "final" [] OTHER -> m

RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Join(Tail(p))

Ctx0 == [ty |-> Root, mode |-> "type", mods |-> {}, vty |-> <<>>, kind |-> "", final |-> FALSE]
Trav(c, e) ==
  CASE e = "var" -> [c EXCEPT !.mode = "var", !.mods = {}, !.vty = <<>>]
    [] c.mode = "var" -> IF e \in ModNames THEN [c EXCEPT !.mods = @ \cup {Canon(e)}] ELSE [c EXCEPT !.vty = Append(@, e)]
    [] e \in {"proc", "verb"} -> [c EXCEPT !.mode = "proc", !.kind = e, !.final = FALSE]
    [] c.mode = "proc" -> [c EXCEPT !.final = TRUE]                 \* only "final" may stand there
    [] OTHER -> [c EXCEPT !.ty = Append(@, e)]
RECURSIVE TravAll(_, _)
TravAll(c, es) == IF es = <<>> THEN c ELSE TravAll(Trav(c, Head(es)), Tail(es))
Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}

Var(decl, line, val, ty, mods) == [decl |-> decl, line |-> line, val |-> val, ty |-> ty, mods |-> mods]
NoVal == [k |-> "none", n |-> 0, p |-> <<>>]
Put(f, key, r) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN r ELSE f[x]]
Get(f, key, d) == IF key \in DOMAIN f THEN f[key] ELSE d

Declare(s, c, name) ==
  LET m == IF name.val.k = "none" /\ s.end = "val" THEN s.v ELSE name.val IN
  (* with brackets behind its name it is a list of that type *)
  Put(vs, <<c.ty, name.x>>, Var(s.line, s.line, m, (IF s.list THEN <<"list">> ELSE <<>>) \o c.vty, c.mods))
Override(s, c, x) ==
  LET old == Get(vs, <<c.ty, x>>, Var(0, 0, NoVal, <<>>, {})) IN
  Put(vs, <<c.ty, x>>, [old EXCEPT !.line = s.line, !.val = s.v])
NewProc(s, c, x) ==
  LET old == Get(ps, <<c.ty, x>>, [decl |-> 0, kind |-> "", final |-> FALSE, vals |-> <<>>])
      decl == c.mode = "proc" IN
  [r |-> [old EXCEPT !.vals = IF decl /\ old.vals # <<>> THEN <<s.line>> \o @ ELSE Append(@, s.line),
                     !.decl = IF decl /\ @ = 0 THEN s.line ELSE @,
                     !.kind = IF decl /\ old.decl = 0 THEN c.kind ELSE @,
                     !.final = IF decl /\ old.decl = 0 THEN c.final ELSE @],
   e |-> (IF decl /\ old.decl # 0 THEN {<<s.line, "dup", x>>} ELSE {}) \cup
         (IF decl /\ old.vals # <<>> THEN {<<old.vals[1], "precedes", x>>} ELSE {})]

Init == /\ cid \in 1..Len(Cases) /\ stack = <<[ctx |-> Ctx0, todo |-> Cases[cid].prog]>>
        /\ types = Builtin /\ vs = <<>> /\ ps = <<>> /\ errs = {} /\ par = <<>> /\ status = "read"

Top == stack[Len(stack)]
Pop == /\ status = "read" /\ stack # <<>> /\ Top.todo = <<>>
       /\ stack' = Front(stack) /\ UNCHANGED <<cid, types, vs, ps, errs, par, status>>
Statement ==
  /\ status = "read" /\ stack # <<>> /\ Top.todo # <<>>
  /\ LET s == Head(Top.todo)
         from == IF s.abs THEN [Top.ctx EXCEPT !.ty = Root] ELSE Top.ctx
         nested == IF s.abs /\ Top.ctx.ty # Root THEN {<<s.line, "nested", "">>} ELSE {}
         c == TravAll(from, Front(s.path))
         x == Last(s.path)
         rest == Append(Front(stack), [Top EXCEPT !.todo = Tail(@)]) IN
     CASE s.end = "block" ->
            LET b == Trav(c, x) IN
            /\ stack' = Append(rest, [ctx |-> b, todo |-> s.body])
            /\ types' = types \cup Prefixes(b.ty) /\ errs' = errs \cup nested /\ UNCHANGED <<vs, ps>>
       [] s.end = "args" ->
            LET np == NewProc(s, c, x) IN
            /\ ps' = Put(ps, <<c.ty, x>>, np.r)
            /\ errs' = errs \cup nested \cup np.e
            /\ stack' = rest /\ types' = types \cup Prefixes(c.ty) /\ UNCHANGED vs
       [] s.end = "val" \/ (s.end = "none" /\ c.mode = "var") ->
            /\ vs' = IF c.mode = "var" THEN Declare(s, c, [x |-> x, val |-> NoVal]) ELSE Override(s, c, x)
            /\ stack' = rest /\ types' = types \cup Prefixes(c.ty) /\ errs' = errs \cup nested /\ UNCHANGED ps
       [] OTHER ->
            /\ types' = types \cup Prefixes(Append(c.ty, x))
            /\ stack' = rest /\ errs' = errs \cup nested /\ UNCHANGED <<vs, ps>>
  /\ UNCHANGED <<cid, par, status>>

----------------------------------------------------------------------------
(* Parents *)
Given(p) == Get(vs, <<p, "parent_type">>, Var(0, 0, NoVal, <<>>, {}))
ByPath(p) == IF p = <<"client">> THEN Root ELSE IF Len(p) = 1 THEN <<"datum">> ELSE Front(p)
Known(p) == p \in types
(* Either a string or a path names the parent; anything else leaves the path parent. *)
ParentOf(p) ==
  IF p \in Rootless THEN Root ELSE IF Fixed(p) # <<>> THEN Fixed(p)
  ELSE IF Given(p).val.k \in {"path", "str"} THEN (IF Known(Given(p).val.p) THEN Given(p).val.p ELSE Root)
  ELSE ByPath(p)
ParentErrs ==
  UNION {LET g == Given(p) IN
         IF p \in Rootless THEN (IF g.val.k # "none" THEN {<<g.line, "notallowed", Join(p)>>} ELSE {})
         ELSE IF Fixed(p) # <<>> THEN {}
         ELSE IF g.val.k \in {"path", "str"} /\ ~Known(g.val.p) THEN {<<g.line, "badparent", Join(p)>>}
         ELSE IF g.val.k = "num" THEN {<<g.line, "badvalue", Join(p)>>} ELSE {} : p \in types}
Assign == /\ status = "read" /\ stack = <<>>
          /\ par' = [p \in types |-> ParentOf(p)] /\ errs' = errs \cup ParentErrs /\ status' = "parents"
          /\ UNCHANGED <<cid, stack, types, vs, ps>>

RECURSIVE Reach(_, _, _)
Reach(p, q, n) == n > 0 /\ p # Root /\ (p = q \/ Reach(par[p], q, n - 1))
OnCycle(p) == Reach(par[p], p, Cardinality(types) + 1)
(* One type of each cycle loses its parent; which one is not determined. *)
Cut == /\ status = "parents"
       /\ \E p \in types : /\ OnCycle(p) /\ par' = [par EXCEPT ![p] = Root]
                            /\ errs' = errs \cup {<<Given(p).line, "cycle", Join(p)>>}
       /\ UNCHANGED <<cid, stack, types, vs, ps, status>>
Settle == /\ status = "parents" /\ ~\E p \in types : OnCycle(p)
          /\ status' = "tree" /\ UNCHANGED <<cid, stack, types, vs, ps, errs, par>>

----------------------------------------------------------------------------
(* Lookups over the finished tree; the root is the last resort of every type. *)
RECURSIVE Chain(_)
Chain(p) == IF p = Root THEN <<Root>> ELSE <<p>> \o Chain(par[p])
IsSub(p, q) == \E i \in 1..Len(Chain(p)) : Chain(p)[i] = q
Nearest(p, P(_)) == LET c == Chain(p) IN
  IF \E i \in 1..Len(c) : P(c[i]) THEN c[CHOOSE i \in 1..Len(c) : P(c[i]) /\ \A j \in 1..(i - 1) : ~P(c[j])] ELSE <<"">>
DeclaredVar(p, x) == Nearest(p, LAMBDA q : <<q, x>> \in DOMAIN vs /\ vs[<<q, x>>].decl # 0)
ValueVar(p, x) == Nearest(p, LAMBDA q : <<q, x>> \in DOMAIN vs)
HasProc(p, x) == Nearest(p, LAMBDA q : <<q, x>> \in DOMAIN ps)
DeclaredProc(p, x) == Nearest(p, LAMBDA q : <<q, x>> \in DOMAIN ps /\ ps[<<q, x>>].decl # 0)

(* Every definition a chain of parent calls visits, topmost first. *)
Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Along(_, _)
Along(c, x) == IF c = <<>> THEN <<>>
               ELSE (IF <<Head(c), x>> \in DOMAIN ps THEN [i \in 1..Len(ps[<<Head(c), x>>].vals) |-> <<Join(Head(c)), Reverse2(ps[<<Head(c), x>>].vals)[i]>>] ELSE <<>>)
                    \o Along(Tail(c), x)

UndefErrs == {<<vs[k].line, "undef", k[2]>> : k \in {k \in DOMAIN vs : vs[k].decl = 0 /\ DeclaredVar(k[1], k[2]) = <<"">> /\ k[2] # "parent_type"}}
Mine == (types \ Builtin) \cup {k[1] : k \in DOMAIN vs \cup DOMAIN ps}
VarNames == {k[2] : k \in DOMAIN vs} \ {"parent_type"}
ProcNames == {k[2] : k \in DOMAIN ps}
Values == {[p |-> Join(p), x |-> x, at |-> Join(ValueVar(p, x)), line |-> IF ValueVar(p, x) = <<"">> THEN 0 ELSE vs[<<ValueVar(p, x), x>>].line,
            decl |-> IF DeclaredVar(p, x) = <<"">> THEN 0 ELSE vs[<<DeclaredVar(p, x), x>>].decl] : p \in Mine \ {Root}, x \in VarNames}
Chains == {[p |-> Join(p), x |-> x, chain |-> Along(Chain(p), x),
            decl |-> IF DeclaredProc(p, x) = <<"">> THEN <<>> ELSE LET d == ps[<<DeclaredProc(p, x), x>>] IN <<d.decl, d.kind>>] : p \in Mine \ {Root}, x \in ProcNames}
SetToSeq2(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]

Report ==
  /\ status = "tree"
  /\ Emit([cid |-> cid,
           types |-> {[p |-> Join(p), up |-> Join(par[p]), sub |-> {Join(q) : q \in {q \in types \ Builtin : IsSub(q, p)}}] : p \in Mine \ {Root}},
           vars |-> {[p |-> Join(k[1]), x |-> k[2], decl |-> vs[k].decl, line |-> vs[k].line, val |-> vs[k].val,
                      ty |-> vs[k].ty, mods |-> vs[k].mods] : k \in DOMAIN vs},
           procs |-> {[p |-> Join(k[1]), x |-> k[2], decl |-> ps[k].decl, kind |-> ps[k].kind, final |-> ps[k].final, vals |-> ps[k].vals] : k \in DOMAIN ps},
           values |-> Values, chains |-> Chains, errs |-> errs \cup UndefErrs])
  /\ status' = "reported" /\ UNCHANGED <<cid, stack, types, vs, ps, errs, par>>

Next == Pop \/ Statement \/ Assign \/ Cut \/ Settle \/ Report

(* What every finished tree satisfies. *)
RECURSIVE Depth(_, _)
Depth(p, n) == IF p = Root \/ n = 0 THEN n ELSE Depth(par[p], n - 1)
Inv ==
  /\ \A p \in types : \A q \in Prefixes(p) : q \in types
  /\ \A k \in DOMAIN vs \cup DOMAIN ps : k[1] = Root \/ k[1] \in types
  /\ status = "tree" =>
       /\ \A p \in types : par[p] = Root \/ par[p] \in types
       /\ \A p \in types : Chain(p)[Len(Chain(p))] = Root /\ Len(Chain(p)) <= Cardinality(types) + 1
       /\ \A p \in types, q \in types : (IsSub(p, q) /\ IsSub(q, p)) => p = q
       /\ \A c \in Chains : \A i, j \in 1..Len(c.chain) : i # j => c.chain[i] # c.chain[j]
       /\ \A k \in DOMAIN ps : ps[k].decl # 0 => \E i \in 1..Len(ps[k].vals) : ps[k].vals[i] = ps[k].decl
==============================================================================
