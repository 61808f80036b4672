------------------------------- MODULE Preproc -------------------------------
(* The DM preprocessor as a state machine.                                   *)
(*                                                                           *)
(* A project is a sequence of files, each a path and a sequence of lines;    *)
(* file 1 is the environment.  A line is either a directive or a line of     *)
(* tokens.  The machine pulls one token (or one whole directive) at a time   *)
(* from the top of a stack of open files and macro expansions, and keeps     *)
(* the table of definitions, the stack of open conditionals, the set of      *)
(* files already included, the output and the diagnostics.                   *)
(*                                                                           *)
(* Mode "gen": the project is chosen lazily, line by line, out of Alphabet,  *)
(* up to MaxLines lines in total, so TLC enumerates every project.           *)
(* Mode "cases": projects come from the case file.                           *)
EXTENDS VCommon

CONSTANTS Mode, MaxLines, Alphabet, Paths, Limit

VARIABLES cid, prog, closed, stack, defs, ifs, fids, included, multi, out, errs, snaps, hist, status

vars == <<cid, prog, closed, stack, defs, ifs, fids, included, multi, out, errs, snaps, hist, status>>

TooBig == 1500     \* beyond this many tokens only termination is decided
NL == [k |-> "nl", s |-> "\n"]
FileCount == IF Mode = "gen" THEN Len(Paths) ELSE Len(Cases[cid].files)
PathOf(f) == IF Mode = "gen" THEN Paths[f] ELSE Cases[cid].files[f].path
IsText(l) == l.k = "t"
LineToks(l) == IF IsText(l) THEN l.toks \o <<NL>> ELSE <<[k |-> "dir", d |-> l]>>

------------------------------------------------------------------------------
(* Pulling tokens. An exhausted frame is dropped only when something is      *)
(* pulled through it, which is what bounds tail-recursive expansion.         *)
RECURSIVE Pull(_)
Pull(st) ==
  IF st = <<>> THEN [t |-> [k |-> "eof", s |-> ""], loc |-> <<0, 0, 0>>, st |-> <<>>]
  ELSE LET top == Last(st) IN
    IF top.k = "x" THEN
      IF top.toks = <<>> THEN Pull(Front(st))
      ELSE [t |-> Head(top.toks), loc |-> top.loc,
            st |-> Append(Front(st), [top EXCEPT !.toks = Tail(@)])]
    ELSE IF top.line > Len(prog[top.f]) THEN Pull(Front(st))
    ELSE LET ts == LineToks(prog[top.f][top.line]) IN
         [t |-> ts[top.ix], loc |-> <<top.f, top.line, top.ix>>,
          st |-> Append(Front(st), IF top.ix < Len(ts) THEN [top EXCEPT !.ix = @ + 1]
                                   ELSE [top EXCEPT !.line = @ + 1, !.ix = 1])]

(* The file that runs dry on the next pull and may still be extended, or 0. *)
RECURSIVE Hungry(_)
Hungry(st) ==
  IF st = <<>> THEN 0
  ELSE LET top == Last(st) IN
    IF top.k = "x" THEN IF top.toks = <<>> THEN Hungry(Front(st)) ELSE 0
    ELSE IF top.line > Len(prog[top.f])
         THEN IF top.f \in closed THEN Hungry(Front(st)) ELSE top.f
         ELSE 0

TopFile(st) == LET fs == SelectSeq(st, LAMBDA x : x.k = "f") IN IF fs = <<>> THEN 0 ELSE Last(fs).f

------------------------------------------------------------------------------
(* The definition table: a sequence of definitions, the last one of a name   *)
(* being in force and hiding earlier ones.                                    *)
DefIx(ds, n) == {i \in 1..Len(ds) : ds[i].n = n}
IsDef(ds, n) == DefIx(ds, n) # {}
Top(S) == CHOOSE i \in S : \A j \in S : j <= i
DefOf(ds, n) == ds[Top(DefIx(ds, n))]
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsDefined(n, st) == IF n = "__MAIN__" THEN TopFile(st) = 1 ELSE IsDef(defs, n)

(* Macros the language has from the start: named numbers, and two statements *)
(* written as macros.  A case starts with those it mentions.                  *)
Numbers ==
  << <<"TRUE", "1">>, <<"FALSE", "0">>, <<"SPACEMAN_DMM", "1">>,
     <<"SEEINVIS", "2">>, <<"SEEMOBS", "4">>, <<"SEEOBJS", "8">>, <<"SEETURFS", "16">>,
     <<"NO_STEPS", "0">>, <<"FORWARD_STEPS", "1">>, <<"SLIDE_STEPS", "2">>, <<"SYNC_STEPS", "3">>,
     <<"LONG_GLIDE", "1">>, <<"RESET_COLOR", "2">>, <<"RESET_ALPHA", "4">>, <<"RESET_TRANSFORM", "8">>,
     <<"NO_CLIENT_COLOR", "16">>, <<"KEEP_TOGETHER", "32">>, <<"KEEP_APART", "64">>, <<"PLANE_MASTER", "128">>,
     <<"TILE_BOUND", "256">>, <<"PIXEL_SCALE", "512">>, <<"ICON_ADD", "0">>, <<"ICON_SUBTRACT", "1">>,
     <<"ICON_MULTIPLY", "2">>, <<"ICON_OVERLAY", "3">>, <<"ICON_AND", "4">>, <<"ICON_OR", "5">>,
     <<"ICON_UNDERLAY", "6">>, <<"LINEAR_EASING", "0">>, <<"SINE_EASING", "1">>, <<"CIRCULAR_EASING", "2">>,
     <<"CUBIC_EASING", "3">>, <<"BOUNCE_EASING", "4">>, <<"ELASTIC_EASING", "5">>, <<"BACK_EASING", "6">>,
     <<"QUAD_EASING", "7">>, <<"EASE_IN", "64">>, <<"EASE_OUT", "128">> >>
Tk(k, s) == [k |-> k, s |-> s]
BuiltIn(n, fn, ps, body) == [n |-> n, fn |-> fn, ps |-> ps, va |-> FALSE, body |-> body, id |-> <<0, 0>>, at |-> <<0, 0>>]
Builtins ==
  [i \in 1..Len(Numbers) |-> BuiltIn(Numbers[i][1], FALSE, <<>>, <<Tk("int", Numbers[i][2])>>)] \o
  << BuiltIn("EXCEPTION", TRUE, <<"value">>,
       <<Tk("id", "new"), Tk("p", "/"), Tk("id", "exception"), Tk("p", "("), Tk("id", "value"), Tk("p", ")")>>),
     \* the message quotes the place of use and the asserted expression
     BuiltIn("ASSERT", TRUE, <<"expression">>,
       <<Tk("id", "if"), Tk("p", "("), Tk("p", "!"), Tk("p", "("), Tk("id", "expression"), Tk("p", ")"), Tk("p", ")"),
         Tk("p", "{"), Tk("id", "CRASH"), Tk("p", "("), Tk("raw", "\"["), Tk("id", "__FILE__"), Tk("raw", "]:["),
         Tk("id", "__LINE__"), Tk("raw", "]:Assertion Failed: ["), Tk("p", "#"), Tk("id", "expression"), Tk("raw", "]\""),
         Tk("p", ")"), Tk("p", "}")>>) >>
Initially(uses) == SelectSeq(Builtins, LAMBDA b : Has(uses, b.n))

------------------------------------------------------------------------------
(* Conditions                                                                 *)
IntVal(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] OTHER -> -1
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Eval(_)
Eval(c) ==
  CASE c.o = "lit" -> [ok |-> TRUE, v |-> c.v]
    [] c.o = "def" -> [ok |-> TRUE, v |-> B(IsDef(defs, c.n))]
    [] c.o = "mac" -> IF IsDef(defs, c.n) /\ ~DefOf(defs, c.n).fn /\ Len(DefOf(defs, c.n).body) = 1
                         /\ DefOf(defs, c.n).body[1].k = "int"
                      THEN [ok |-> TRUE, v |-> IntVal(DefOf(defs, c.n).body[1].s)]
                      ELSE [ok |-> FALSE, v |-> 0]
    [] c.o = "raw" -> [ok |-> FALSE, v |-> 0]      \* only ever written in dead regions
    [] c.o = "not" -> LET a == Eval(c.a) IN [ok |-> a.ok, v |-> B(a.v = 0)]
    [] OTHER -> LET a == Eval(c.a)
                    b == Eval(c.b) IN
         [ok |-> a.ok /\ b.ok,
          v |-> CASE c.o = "and" -> B(a.v # 0 /\ b.v # 0)
                  [] c.o = "or"  -> B(a.v # 0 \/ b.v # 0)
                  [] c.o = "eq"  -> B(a.v = b.v)
                  [] c.o = "lt"  -> B(a.v < b.v)]

------------------------------------------------------------------------------
(* Argument collection and substitution                                       *)
RECURSIVE ReadArgs(_, _, _, _)
ReadArgs(st, depth, args, cur) ==
  LET p == Pull(st) IN
  IF p.t.k = "eof" \/ p.t.k = "dir" THEN [res |-> "unspec", args |-> args, st |-> p.st, loc |-> p.loc]
  ELSE IF p.t.s = "(" /\ p.t.k = "p" THEN ReadArgs(p.st, depth + 1, args, Append(cur, p.t))
  ELSE IF p.t.s = ")" /\ p.t.k = "p" THEN
         IF depth = 0 THEN [res |-> "ok", args |-> Append(args, cur), st |-> p.st, loc |-> p.loc]
         ELSE ReadArgs(p.st, depth - 1, args, Append(cur, p.t))
  ELSE IF p.t.s = "," /\ p.t.k = "p" /\ depth = 0 THEN ReadArgs(p.st, 0, Append(args, cur), <<>>)
  ELSE ReadArgs(p.st, depth, args, Append(cur, p.t))

Comma == [k |-> "p", s |-> ","]
RECURSIVE JoinComma(_)
JoinComma(as) == IF Len(as) = 1 THEN as[1] ELSE as[1] \o <<Comma>> \o JoinComma(Tail(as))

FixArgs(m, args) ==
  LET n == Len(m.ps) IN
  IF ~m.va THEN args
  ELSE IF Len(args) > n THEN Append(SubSeq(args, 1, n - 1), JoinComma(SubSeq(args, n, Len(args))))
  ELSE IF Len(args) + 1 = n THEN Append(args, <<>>)
  ELSE args

Shown(t) == IF t.k = "str" THEN "\"" \o t.s \o "\"" ELSE t.s
RECURSIVE JoinSp(_)
JoinSp(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN Shown(ts[1]) ELSE Shown(ts[1]) \o " " \o JoinSp(Tail(ts))

ParamIx(m, t) == IF t.k # "id" THEN 0
                 ELSE LET S == {i \in 1..Len(m.ps) : m.ps[i] = t.s} IN
                      IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
IsP(t, s) == t.k = "p" /\ t.s = s

(* Left to right over the body; `acc` is the expansion so far. *)
RECURSIVE Subst(_, _, _, _)
Subst(m, args, body, acc) ==
  IF body = <<>> THEN acc
  ELSE LET t == body[1] IN
    IF IsP(t, "##") /\ Len(body) >= 2 THEN
      LET i == ParamIx(m, body[2])
          right == IF i = 0 THEN <<body[2]>> ELSE args[i]
          rest == SubSeq(body, 3, Len(body)) IN
      IF acc # <<>> /\ Last(acc).k = "id" /\ right # <<>> /\ right[1].k \in {"id", "int"}
      THEN Subst(m, args, rest,
                 Front(acc) \o <<[k |-> "id", s |-> Last(acc).s \o right[1].s]>> \o Tail(right))
      ELSE Subst(m, args, rest, acc \o right)
    ELSE IF IsP(t, "#") /\ Len(body) >= 2 /\ ParamIx(m, body[2]) # 0 THEN
      Subst(m, args, SubSeq(body, 3, Len(body)),
            Append(acc, [k |-> "str", s |-> JoinSp(args[ParamIx(m, body[2])])]))
    ELSE LET i == ParamIx(m, t) IN
      Subst(m, args, Tail(body), IF i = 0 THEN Append(acc, t) ELSE acc \o args[i])

------------------------------------------------------------------------------
(* Include resolution: beside the including file, then beside the environment *)
RECURSIVE NormPath(_, _)
NormPath(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE IF Head(segs) = ".." /\ acc # <<>> THEN NormPath(Tail(segs), Front(acc))
  ELSE NormPath(Tail(segs), Append(acc, Head(segs)))
FindFile(p) == LET S == {f \in 1..FileCount : PathOf(f) = p} IN IF S = {} THEN 0 ELSE CHOOSE f \in S : TRUE
Resolve(segs, st) ==
  LET here == FindFile(NormPath(Front(PathOf(TopFile(st))) \o segs, <<>>))
      root == FindFile(NormPath(segs, <<>>)) IN
  IF here # 0 THEN here ELSE root
KindOf(f) == IF Mode = "gen" THEN "dm" ELSE Cases[cid].files[f].kind

------------------------------------------------------------------------------
Active == \A i \in 1..Len(ifs) : ifs[i].active
Err(k, loc) == [kind |-> k, f |-> loc[1], l |-> loc[2]]
Here(t, loc) == [s |-> Shown(t), f |-> loc[1], l |-> loc[2], i |-> loc[3]]
NLAt(loc) == Here(NL, loc)

Init ==
  /\ cid \in IF Mode = "gen" THEN {0} ELSE 1..Len(Cases)
  /\ prog = IF Mode = "gen" THEN [f \in 1..Len(Paths) |-> <<>>]
            ELSE [f \in 1..Len(Cases[cid].files) |-> Cases[cid].files[f].lines]
  /\ closed = IF Mode = "gen" THEN {} ELSE 1..Len(Cases[cid].files)
  /\ stack = <<[k |-> "f", f |-> 1, line |-> 1, ix |-> 1]>>
  /\ defs = (IF Mode = "gen" THEN <<>> ELSE Initially(Cases[cid].uses))
  /\ ifs = <<>> /\ fids = <<1>> /\ included = {} /\ multi = {}
  /\ out = <<>> /\ errs = <<>> /\ snaps = <<>> /\ hist = <<>> /\ status = "run"

Total == FoldSeqL(LAMBDA a, b : a + Len(b), 0, prog)

Extend ==
  /\ status = "run" /\ Hungry(stack) # 0
  /\ LET f == Hungry(stack) IN
     \/ closed' = closed \cup {f} /\ UNCHANGED prog
     \/ /\ Total < MaxLines
        /\ \E l \in Alphabet : prog' = [prog EXCEPT ![f] = Append(@, l)]
        /\ UNCHANGED closed
  /\ UNCHANGED <<cid, stack, defs, ifs, fids, included, multi, out, errs, snaps, hist, status>>

(* ---- directives ---------------------------------------------------------- *)
KeepIfs == UNCHANGED ifs
NewIf(loc, a) == [loc |-> loc, active |-> a, chain |-> a]

Cond(d) ==        (* -> [ok, v]; a condition is not evaluated in a dead region *)
  IF ~Active THEN [ok |-> TRUE, v |-> 0] ELSE Eval(d.c)

Conditional(d, loc, st) ==
  /\ CASE d.k = "ifdef"  -> ifs' = Append(ifs, NewIf(loc, IsDefined(d.n, st))) /\ errs' = errs
       [] d.k = "ifndef" -> ifs' = Append(ifs, NewIf(loc, ~IsDefined(d.n, st))) /\ errs' = errs
       [] d.k = "if" -> LET v == Cond(d) IN
            /\ ifs' = Append(ifs, NewIf(loc, v.ok /\ v.v # 0))
            /\ errs' = IF v.ok THEN errs ELSE Append(errs, Err("cond", loc))
       [] ifs = <<>> -> ifs' = ifs /\ errs' = Append(errs, Err("unmatched " \o d.k, loc))
       [] d.k = "endif" -> ifs' = Front(ifs) /\ errs' = errs
       [] d.k = "else" ->
            LET x == Last(ifs) IN
            /\ ifs' = Append(Front(ifs), [loc |-> loc, active |-> ~x.chain, chain |-> TRUE])
            /\ errs' = errs
       [] d.k = "elif" ->
            LET x == Last(ifs)
                outer == \A i \in 1..(Len(ifs) - 1) : ifs[i].active
                v == IF outer /\ ~x.chain THEN Eval(d.c) ELSE [ok |-> TRUE, v |-> 0]
                a == v.ok /\ v.v # 0 IN
            /\ ifs' = Append(Front(ifs), [loc |-> loc, active |-> ~x.chain /\ a, chain |-> x.chain \/ a])
            /\ errs' = IF v.ok THEN errs ELSE Append(errs, Err("cond", loc))
  /\ UNCHANGED <<fids, defs, included, multi, snaps, hist, status>>

User(ds) == SelectSeq(ds, LAMBDA d : d.id # <<0, 0>>)
SnapOf(ds) == LET u == User(ds) IN [i \in 1..Len(u) |-> [n |-> u[i].n, id |-> u[i].id]]

Directive(d, loc, st) ==
  CASE d.k \in {"if", "ifdef", "ifndef", "elif", "else", "endif"} ->
         Conditional(d, loc, st) /\ stack' = st /\ out' = Append(out, NLAt(loc))
    [] ~Active -> /\ stack' = st /\ out' = Append(out, NLAt(loc))
                  /\ UNCHANGED <<defs, ifs, fids, included, multi, errs, snaps, hist, status>>
    [] d.k = "define" ->
         /\ IF d.n = "DEBUG" /\ TopFile(st) # 1 THEN UNCHANGED <<defs, errs>>
            ELSE /\ errs' = IF IsDef(defs, d.n) /\ d.n # "FILE_DIR" THEN Append(errs, Err("redefined " \o d.n, loc)) ELSE errs
                 /\ defs' = Append(defs, [n |-> d.n, fn |-> d.fn, ps |-> d.ps, va |-> d.va, body |-> d.body,
                                          id |-> <<loc[1], loc[2]>>, at |-> <<FoldSeqL(LAMBDA a, i : IF fids[i] = loc[1] THEN i ELSE a, 0, [i \in 1..Len(fids) |-> i]), loc[2]>>])
         /\ stack' = st /\ out' = Append(out, NLAt(loc))
         /\ UNCHANGED <<ifs, fids, included, multi, snaps, hist, status>>
    [] d.k = "undef" ->
         /\ IF IsDef(defs, d.n)
            THEN /\ defs' = RemoveAt(defs, Top(DefIx(defs, d.n)))
                 /\ hist' = Append(hist, [d |-> DefOf(defs, d.n), end |-> <<FoldSeqL(LAMBDA a, i : IF fids[i] = loc[1] THEN i ELSE a, 0, [i \in 1..Len(fids) |-> i]), loc[2]>>])
                 /\ errs' = errs
            ELSE UNCHANGED <<defs, hist>> /\ errs' = Append(errs, Err("undefined " \o d.n, loc))
         /\ stack' = st /\ out' = Append(out, NLAt(loc))
         /\ UNCHANGED <<ifs, fids, included, multi, snaps, status>>
    [] d.k \in {"warn", "error"} ->
         /\ errs' = Append(errs, Err(d.k \o " " \o d.n, loc)) /\ stack' = st /\ out' = Append(out, NLAt(loc))
         /\ UNCHANGED <<defs, ifs, fids, included, multi, snaps, hist, status>>
    [] d.k = "multiple" ->
         /\ multi' = multi \cup {TopFile(st)} /\ stack' = st /\ out' = Append(out, NLAt(loc))
         /\ UNCHANGED <<defs, ifs, fids, included, errs, snaps, hist, status>>
    [] d.k = "include" ->
         LET f == Resolve(d.p, st) IN
         /\ out' = Append(out, NLAt(loc))
         /\ IF f = 0 THEN /\ errs' = Append(errs, Err("notfound", loc)) /\ stack' = st
                          /\ UNCHANGED <<included, fids, snaps>>
            ELSE IF KindOf(f) # "dm" THEN
                 /\ errs' = IF KindOf(f) = "other" THEN Append(errs, Err("badext", loc)) ELSE errs
                 /\ stack' = st /\ UNCHANGED <<included, fids, snaps>>
            ELSE IF f \in included /\ f \notin multi THEN
                 errs' = Append(errs, Err("duplicate", loc)) /\ stack' = st /\ UNCHANGED <<included, fids, snaps>>
            ELSE /\ stack' = Append(st, [k |-> "f", f |-> f, line |-> 1, ix |-> 1])
                 /\ errs' = errs
                 /\ included' = included \cup {f}
                 /\ fids' = IF Has(fids, f) THEN fids ELSE Append(fids, f)
                 /\ snaps' = IF f \in included THEN snaps ELSE Append(snaps, [f |-> f, defs |-> SnapOf(defs)])
         /\ UNCHANGED <<defs, ifs, multi, hist, status>>

(* ---- tokens --------------------------------------------------------------- *)
Emitted(ts) == /\ out' = out \o ts
               /\ UNCHANGED <<errs, status>>

Token(t, loc, st) ==
  /\ UNCHANGED <<defs, ifs, fids, included, multi, snaps, hist>>
  /\ IF ~Active THEN stack' = st /\ UNCHANGED <<out, errs, status>>
     ELSE IF t.k = "id" /\ t.s = "__LINE__" THEN
       stack' = st /\ Emitted(<<[s |-> ToString(loc[2]), f |-> loc[1], l |-> loc[2], i |-> loc[3]]>>)
     ELSE IF t.k = "id" /\ t.s = "__FILE__" THEN
       stack' = st /\ Emitted(<<[s |-> "@FILE" \o ToString(TopFile(st)), f |-> loc[1], l |-> loc[2], i |-> loc[3]]>>)
     ELSE IF t.k = "id" /\ IsDef(defs, t.s) THEN
       LET m == DefOf(defs, t.s) IN
       IF Len(out) > TooBig THEN
         status' = "big" /\ stack' = <<>> /\ UNCHANGED <<out, errs>>
       ELSE IF Len(st) > Limit THEN    \* only runaway recursion gets here
         status' = "recursion" /\ stack' = <<>> /\ UNCHANGED <<out, errs>>
       ELSE IF ~m.fn THEN
         /\ stack' = Append(st, [k |-> "x", toks |-> m.body, loc |-> loc])
         /\ UNCHANGED <<out, errs, status>>
       ELSE LET p == Pull(st) IN
         IF ~IsP(p.t, "(") THEN
           IF p.t.k = "dir"
           THEN status' = "unspec" /\ stack' = <<>> /\ UNCHANGED <<out, errs>>
           ELSE stack' = st /\ Emitted(<<Here(t, loc)>>)
         ELSE LET a == ReadArgs(p.st, 0, <<>>, <<>>)
                  args == FixArgs(m, a.args) IN
           IF a.res # "ok" THEN status' = "unspec" /\ stack' = <<>> /\ UNCHANGED <<out, errs>>
           ELSE IF Len(args) # Len(m.ps) THEN
             /\ stack' = a.st /\ errs' = Append(errs, Err("args", a.loc))
             /\ UNCHANGED <<out, status>>
           ELSE LET body == Subst(m, args, m.body, <<>>) IN
                IF Len(body) > TooBig THEN status' = "big" /\ stack' = <<>> /\ UNCHANGED <<out, errs>>
                ELSE /\ stack' = Append(a.st, [k |-> "x", toks |-> body, loc |-> loc])
                     /\ UNCHANGED <<out, errs, status>>
     ELSE stack' = st /\ Emitted(<<Here(t, loc)>>)

------------------------------------------------------------------------------
(* What a history ordered by source position (rather than by time) would     *)
(* answer: used only to recognise the known weakness of branch_at_file.       *)
LocLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
FidOf(f) == FoldSeqL(LAMBDA a, i : IF fids[i] = f THEN i ELSE a, 0, [i \in 1..Len(fids) |-> i])
AllDefs == [i \in 1..Len(hist) |-> [d |-> hist[i].d, end |-> hist[i].end]]
           \o [i \in 1..Len(defs) |-> [d |-> defs[i], end |-> <<100000, 0>>]]
ByPosition(p) ==
  LET
      vis == SelectSeq(AllDefs, LAMBDA x : x.d.id # <<0, 0>> /\ LocLeq(x.d.at, p) /\ LocLeq(p, x.end))
      \* insertion order among equal positions does not arise: one directive per line
      srt == SortSeq(vis, LAMBDA x, y : LocLeq(x.d.at, y.d.at) /\ x.d.at # y.d.at) IN
  [i \in 1..Len(srt) |-> [n |-> srt[i].d.n, id |-> srt[i].d.id]]

Finish ==
  /\ errs' = errs \o [i \in 1..Len(ifs) |-> Err("unterminated", ifs[i].loc)]
  /\ status' = "done" /\ stack' = <<>>
  /\ UNCHANGED <<cid, prog, closed, defs, ifs, fids, included, multi, out, snaps, hist>>

Step ==
  /\ status = "run" /\ Hungry(stack) = 0
  /\ LET p == Pull(stack) IN
     IF p.t.k = "eof" THEN Finish
     ELSE IF Len(out) > TooBig THEN
       /\ status' = "big" /\ stack' = <<>>
       /\ UNCHANGED <<cid, prog, closed, defs, ifs, fids, included, multi, out, errs, snaps, hist>>
     ELSE /\ UNCHANGED <<cid, prog, closed>>
          /\ IF p.t.k = "dir" THEN Directive(p.t.d, p.loc, p.st) ELSE Token(p.t, p.loc, p.st)

Report ==
  /\ status \in {"done", "recursion", "big", "unspec"}
  /\ Emit([cid |-> cid, status |-> status, prog |-> IF Mode = "gen" THEN prog ELSE <<>>, out |-> out, errs |-> errs,
           snaps |-> [i \in 1..Len(snaps) |-> [f |-> snaps[i].f, defs |-> snaps[i].defs, bypos |-> ByPosition(<<FidOf(snaps[i].f), 0>>)]],
           final |-> SnapOf(defs), finalpos |-> ByPosition(<<99999, 0>>), fids |-> fids])
  /\ status' = "reported"
  /\ UNCHANGED <<cid, prog, closed, stack, defs, ifs, fids, included, multi, out, errs, snaps, hist>>

Next == Extend \/ Step \/ Report

------------------------------------------------------------------------------
(* What holds in every state.                                                 *)
ChainOk(x) == x.active => x.chain
NoLostDefs == \A i, j \in 1..Len(defs) : i < j => defs[i].id # defs[j].id \/ defs[i].id[1] \in multi \/ defs[i].id[1] = 0
IncludeOnce ==
  \A f \in 1..Len(prog) : f \notin multi =>
     Cardinality({i \in 1..Len(stack) : stack[i].k = "f" /\ stack[i].f = f}) <= (IF f = 1 THEN 2 ELSE 1)
OnlyActiveOutput == \A i \in 1..Len(out) : out[i].f \in 1..Len(prog)
Inv == /\ \A i \in 1..Len(ifs) : ChainOk(ifs[i])
       /\ NoLostDefs /\ IncludeOnce /\ OnlyActiveOutput
       /\ (status = "done" => Len(SelectSeq(errs, LAMBDA e : e.kind = "unterminated")) = Len(ifs))
==============================================================================
