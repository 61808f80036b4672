------------------------------- MODULE Handbook -------------------------------
(* The generated documentation: which pages there are, what is listed on them, *)
(* and where the crosslinks between them lead.                                 *)
(* A case is a project: files [module, top, hidden, kind |-> "dm" | "md"], the *)
(* directories to search (none: those of the program), the file shown on the   *)
(* index page (or 0), and what the files hold, in order:                       *)
(*   [k, file, path, name, decl, doc, to]                                      *)
(* k: "type", "var", "proc" (of the type `path`, or of no type), "macro",      *)
(* "note" (about a file), "page" (a text file), "parent" (path's parent type   *)
(* is `to`), "name" (its name var).  doc: [title, paras, refs].                *)
EXTENDS VCommon
CONSTANTS Native, NativeVars, NativeProcs

VARIABLES cid, at, types, members, macros, filed, links, status
vars == <<cid, at, types, members, macros, filed, links, status>>

C == Cases[cid]
N == Len(C.items)
Item == C.items[at]
File(i) == C.files[i.file]
Told(d) == d.title \/ d.paras > 0
Upto(p, n) == SubSeq(p, 1, n)

Init == cid \in 1..Len(Cases) /\ at = 1 /\ types = {} /\ members = {} /\ macros = {} /\ filed = <<>> /\ links = <<>> /\ status = "collate"

(* Text files are looked for in some directories, except in hidden ones. *)
Searched == IF Len(C.dirs) > 0 THEN {C.dirs[i] : i \in 1..Len(C.dirs)} ELSE {C.files[i].top : i \in {j \in 1..Len(C.files) : C.files[j].kind = "dm"}}
Found(i) == File(i).top \in Searched /\ ~File(i).hidden /\ i.file # C.index

Exist(p) == types' = types \cup {Upto(p, n) : n \in 1..Len(p)}
File1(i) == filed' = Append(filed, at)
Same(xs) == UNCHANGED xs
CollateType == Item.k = "type" /\ Exist(Item.path) /\ (IF Told(Item.doc) THEN File1(Item) ELSE Same(filed)) /\ Same(<<members, macros>>)
CollateMember == Item.k \in {"var", "proc"} /\ Exist(Item.path) /\ members' = members \cup {at} /\ Same(macros)
  /\ IF Item.path = <<>> /\ Told(Item.doc) THEN File1(Item) ELSE Same(filed)
CollateMacro == Item.k = "macro" /\ macros' = macros \cup {at} /\ Same(<<types, members>>) /\ IF Told(Item.doc) THEN File1(Item) ELSE Same(filed)
CollateNote == Item.k = "note" /\ File1(Item) /\ Same(<<types, members, macros>>)
CollatePage == Item.k = "page" /\ (IF Found(Item) THEN File1(Item) ELSE Same(filed)) /\ Same(<<types, members, macros>>)
CollateOther == Item.k \in {"parent", "name"} /\ Exist(Item.path) /\ Same(<<members, macros, filed>>)
Collate == status = "collate" /\ at <= N /\ (CollateType \/ CollateMember \/ CollateMacro \/ CollateNote \/ CollatePage \/ CollateOther)
           /\ at' = at + 1 /\ Same(<<cid, links, status>>)
Collated == status = "collate" /\ at > N /\ status' = "link" /\ at' = 1 /\ Same(<<cid, types, members, macros, filed, links>>)

------------------------------------------------------------------------------
I(n) == C.items[n]
Modules == {File(I(filed[j])).module : j \in 1..Len(filed)}
Of(p) == {m \in members : I(m).path = p}
TypeItem(p) == {j \in 1..N : I(j).k = "type" /\ I(j).path = p /\ Told(I(j).doc)}
(* A type has a page of its own if there is more to say than one line. *)
HasPage(p) == (\E m \in Of(p) : Told(I(m).doc)) \/ (\E j \in TypeItem(p) : I(j).doc.paras > 1)
Listed(p) == HasPage(p) \/ TypeItem(p) # {}

NativeParent(p) ==
  IF p \in {<<"obj">>, <<"mob">>} THEN <<"atom", "movable">> ELSE IF p \in {<<"turf">>, <<"area">>} THEN <<"atom">>
  ELSE IF p = <<"datum">> \/ p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN <<"datum">> ELSE Upto(p, Len(p) - 1)
Parent(p) == LET set == {j \in 1..N : I(j).k = "parent" /\ I(j).path = p} IN
  IF set = {} THEN NativeParent(p) ELSE I(CHOOSE j \in set : TRUE).to
Telling(p, k, n) == {m \in Of(p) : I(m).k = k /\ I(m).name = n /\ Told(I(m).doc)}
RECURSIVE Above(_, _, _)
Above(p, k, n) == IF Parent(p) = <<>> THEN <<>> ELSE IF Telling(Parent(p), k, n) # {} THEN Parent(p) ELSE Above(Parent(p), k, n)

(* Crosslinks.  What is not documented is guessed to be the nearest documented *)
(* thing on its path, and said to be wrong; so is what is not written in full. *)
None == [k |-> "none", path |-> <<>>, name |-> ""]
Outside == [k |-> "outside", path |-> <<>>, name |-> ""]
Either == [k |-> "either", path |-> <<>>, name |-> ""]
Natively(k, p, n) == IF k = "type" THEN p \in Native ELSE <<p, n>> \in (IF k = "var" THEN NativeVars ELSE NativeProcs)
Written(k, p, n) == IF k = "type" THEN p \in types
  ELSE \/ \E m \in Of(p) : I(m).k = k /\ I(m).name = n
       \/ k = "var" /\ n = "name" /\ \E j \in 1..N : I(j).k = "name" /\ I(j).path = p
There(k, p, n) == Natively(k, p, n) \/ Written(k, p, n)
Good(k, p, n) == IF k = "type" THEN HasPage(p) ELSE Telling(p, k, n) # {}
Resolve(k, p, n) ==
  LET good == {j \in (IF p = <<>> THEN {0} ELSE 1..Len(p)) : Good(k, Upto(p, j), n)}
      best == CHOOSE j \in good : \A x \in good : x <= j IN
  IF good # {} THEN [to |-> [k |-> k, path |-> Upto(p, best), name |-> n], said |-> best # Len(p)]
  ELSE IF Written(k, p, n) /\ Natively(k, p, n) THEN [to |-> Either, said |-> TRUE]
  ELSE IF Natively(k, p, n) THEN [to |-> Outside, said |-> FALSE]
  ELSE [to |-> None, said |-> TRUE]
MacroIn(n) == {File(I(m)).module : m \in {j \in macros : I(j).name = n /\ Told(I(j).doc)}}
Follow(r) ==
  IF r.k = "macro" THEN IF MacroIn(r.name) = {} THEN [to |-> None, said |-> TRUE] ELSE [to |-> [k |-> "macro", path |-> CHOOSE m \in MacroIn(r.name) : TRUE, name |-> r.name], said |-> FALSE]
  ELSE IF r.k = "file" THEN IF r.path \in Modules THEN [to |-> [k |-> "file", path |-> r.path, name |-> ""], said |-> FALSE] ELSE [to |-> None, said |-> TRUE]
  ELSE IF r.k \in {"type", "var", "proc"} THEN Resolve(r.k, r.path, r.name)
  ELSE IF r.k = "word" /\ There("var", <<>>, r.name) THEN [Resolve("var", <<>>, r.name) EXCEPT !.said = TRUE]
  ELSE IF r.k = "word" THEN [to |-> None, said |-> TRUE]
  ELSE IF There("type", r.path \o <<r.name>>, "") THEN Resolve("type", r.path \o <<r.name>>, "")
  ELSE IF There("var", r.path, r.name) THEN [Resolve("var", r.path, r.name) EXCEPT !.said = TRUE]
  ELSE IF There("proc", r.path, r.name) THEN [Resolve("proc", r.path, r.name) EXCEPT !.said = TRUE]
  ELSE Resolve("type", r.path \o <<r.name>>, "")

Shown(n) == IF I(n).k = "page" THEN Has(filed, n) \/ (C.index # 0 /\ I(n).file = C.index) ELSE Told(I(n).doc)
Link == status = "link" /\ at <= N /\ at' = at + 1 /\ Same(<<cid, types, members, macros, filed, status>>)
  /\ links' = Append(links, IF Shown(at) THEN [j \in 1..Len(Item.doc.refs) |-> Follow(Item.doc.refs[j])] ELSE <<>>)

------------------------------------------------------------------------------
(* The page of a file: what it says of itself between what it documents. *)
RECURSIVE Rows(_)
Rows(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET rest == Rows(Tail(s)) IN
       IF I(Head(s)).k \notin {"note", "page"} THEN <<[k |-> I(Head(s)).k, of |-> <<Head(s)>>]>> \o rest
       ELSE IF rest # <<>> /\ rest[1].k = "docs" THEN <<[k |-> "docs", of |-> <<Head(s)>> \o rest[1].of]>> \o Tail(rest)
       ELSE <<[k |-> "docs", of |-> <<Head(s)>>]>> \o rest
Entries(m) == Rows(SelectSeq(filed, LAMBDA n : File(I(n)).module = m))
All == Native \cup types \cup {<<>>}
Prefixed(p) == {n \in 1..Len(p) : HasPage(Upto(p, n))}
TypePage(p) ==
  [path |-> p, page |-> HasPage(p), doc |-> TypeItem(p), members |-> {m \in Of(p) : Told(I(m).doc)},
   named |-> {j \in 1..N : I(j).k = "name" /\ I(j).path = p}, linked |-> Prefixed(p),
   inherits |-> IF p = <<>> \/ Parent(p) = <<>> \/ Parent(p) = Upto(p, Len(p) - 1) THEN <<>> ELSE Parent(p)]
(* git: how the text compares to the one it is published from ("none": no     *)
(* history, "alone": nowhere).  Places lead to the web only if they are there. *)
Ups == {[item |-> m, up |-> IF I(m).path = <<>> THEN <<>> ELSE Above(I(m).path, I(m).k, I(m).name)] : m \in {j \in members : ~I(j).decl /\ Told(I(j).doc)}}
Report ==
  /\ status = "link" /\ at > N
  /\ Emit([cid |-> cid, modules |-> {[module |-> m, rows |-> Entries(m)] : m \in Modules},
           types |-> {TypePage(p) : p \in {q \in All : Listed(q)}}, ups |-> Ups, links |-> links,
           fresh |-> Cardinality(types \ Native), defines |-> Cardinality(macros),
           macros |-> Cardinality({m \in macros : Told(I(m).doc)}),
           web |-> C.git \in {"same", "behind"},
           pages |-> {p \in All : HasPage(p)}])
  /\ status' = "done" /\ Same(<<cid, at, types, members, macros, filed, links>>)
Next == Collate \/ Collated \/ Link \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* Every link leads to something which has a place, no row is on two pages,    *)
(* and what is documented is listed.                                           *)
Inv == status = "done" =>
  /\ \A i \in 1..Len(links) : \A j \in 1..Len(links[i]) : LET t == links[i][j].to IN
       /\ t.k = "file" => t.path \in Modules
       /\ t.k = "type" => HasPage(t.path)
       /\ t.k \in {"var", "proc"} => HasPage(t.path) /\ Telling(t.path, t.k, t.name) # {}
       /\ t.k = "macro" => t.path \in Modules
       /\ t = None => links[i][j].said
  /\ \A i, j \in 1..Len(filed) : i # j => filed[i] # filed[j]
  /\ \A n \in 1..N : I(n).k \in {"type", "var", "proc"} /\ Told(I(n).doc) => Listed(I(n).path)
==============================================================================
