-------------------------------- MODULE Outline --------------------------------
(* The outline of a text, and symbols found by name.  A case holds the lines  *)
(* of one text: how deep each is indented, what it declares and under which   *)
(* path.  The machine reads line after line, keeping a stack of open blocks,  *)
(* and lists each declaration under the innermost block or proc it is in.     *)
(* Afterwards it answers searches for names.                                  *)
EXTENDS VCommon

VARIABLES cid, status, at, open, entries, found
vars == <<cid, status, at, open, entries, found>>

C == Cases[cid]
L(i) == C.lines[i]

(* Words of paths which say what is declared and how, and are no names.       *)
Words == {"proc", "verb", "var", "static", "tmp", "const", "global", "final", "private", "protected"}

(* Blocks of lines deeper than the line which opens them.  A block of a type  *)
(* or proc is listed itself; one of var or proc only groups what is in it.    *)
Outer(d) == SelectSeq(open, LAMBDA b : b.d < d)
Innermost(o) == IF o = <<>> THEN [d |-> -1, entry |-> 0, path |-> <<>>, skip |-> 0, inproc |-> FALSE] ELSE Last(o)
(* The whole path of a line within a block.                                   *)
Whole(l, b) == IF l.abs THEN l.path ELSE b.path \o l.path
TypePath(p) == SelectSeq(p, LAMBDA x : x \notin Words)
(* Beside its name an entry shows the last name before it which its own line  *)
(* or a heading above it adds to what it is listed under.                      *)
Detail(l, b) == LET w == Whole(l, b)
                    rest == SelectSeq(SubSeq(w, b.skip + 1, Len(w) - 1), LAMBDA x : x \notin Words) IN IF rest = <<>> THEN "" ELSE Last(rest)
ProcKind(l, b) ==
  IF Front(TypePath(Whole(l, b))) = <<>> THEN "function"
  ELSE IF Last(l.path) \in {"New", "init", "Initialize"} THEN "constructor" ELSE "method"
Kind(l, b) == CASE l.k = "type" -> "class" [] l.k = "var" -> "field" [] l.k = "proc" -> ProcKind(l, b) [] l.k = "local" -> "variable" [] OTHER -> "constant"

Listed(l) == l.k \in {"type", "var", "proc", "local", "define"}
Blocks(l) == l.k \in {"type", "proc", "heading", "block"}
(* Macros stand outside of the indentation of everything else.                *)
Floating(l) == l.k \in {"define", "blank"}

Init == cid \in 1..Len(Cases) /\ status = "read" /\ at = 1 /\ open = <<>> /\ entries = <<>> /\ found = <<>>

Read ==
  /\ status = "read" /\ at <= Len(C.lines)
  /\ LET l == L(at)
         o == IF Floating(l) THEN open ELSE Outer(l.d)
         b == Innermost(o)
         e == [name |-> Last(l.path), detail |-> IF l.k \in {"local", "define"} THEN "" ELSE Detail(l, b), kind |-> Kind(l, b), line |-> at,
               parent |-> IF Floating(l) THEN 0 ELSE b.entry, under |-> TypePath(Front(Whole(l, b))), end |-> at]
         (* every block still open lasts to here *)
         longer == IF Floating(l) THEN entries ELSE [i \in 1..Len(entries) |-> IF \E j \in 1..Len(o) : o[j].entry = i THEN [entries[i] EXCEPT !.end = at] ELSE entries[i]] IN
     /\ entries' = IF Listed(l) THEN Append(longer, e) ELSE longer
     /\ open' = IF Blocks(l)
                THEN Append(o, [d |-> l.d, entry |-> IF Listed(l) THEN Len(entries) + 1 ELSE b.entry, path |-> Whole(l, b), skip |-> IF Listed(l) THEN Len(Whole(l, b)) ELSE b.skip, inproc |-> b.inproc \/ l.k = "proc"])
                ELSE o
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, found>>
Finish == status = "read" /\ at = Len(C.lines) + 1 /\ status' = "search" /\ at' = 1 /\ open' = <<>> /\ UNCHANGED <<cid, entries, found>>

------------------------------------------------------------------------------
(* Searches.  A query holds what it is restricted to and its characters; what *)
(* the names of the case consist of is in C.spelled, as sequences of          *)
(* characters.  Case does not matter, nor what is no letter or digit, except  *)
(* in paths.                                                                   *)
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Down(c) == IF \E i \in 1..26 : Upper[i] = c THEN Lower[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
Alnum(c) == Down(c) \in {Lower[i] : i \in 1..26} \cup {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Simple(s) == LET k == SelectSeq(s, Alnum) IN [i \in 1..Len(k) |-> Down(k[i])]
Begins(s, q) == Len(q) <= Len(s) /\ SubSeq(s, 1, Len(q)) = q
Within(s, q) == \E i \in 0..Len(s) : i + Len(q) <= Len(s) /\ SubSeq(s, i + 1, i + Len(q)) = q
Spelled(n) == C.spelled[CHOOSE i \in 1..Len(C.spelled) : C.spelled[i].n = n].s
Downs(s) == [i \in 1..Len(s) |-> Down(s[i])]
RECURSIVE Path(_)
Path(p) == IF p = <<>> THEN <<>> ELSE <<"/">> \o Spelled(Head(p)) \o Path(Tail(p))

(* What can be found: macros, types, variables and procs where they are       *)
(* declared (types and names in every text of the case's project).            *)
Hit(q, s) ==
  LET named == Begins(Simple(Spelled(s.name)), Simple(q.s)) IN
  /\ Simple(q.s) # <<>>
  /\ CASE q.k = "any" -> named
       [] q.k = "#" -> s.kind = "constant" /\ named
       [] q.k = "var" -> s.kind = "field" /\ named
       [] q.k = "proc" -> s.kind \in {"function", "method", "constructor"} /\ named
       [] q.k = "path" -> s.kind = "class" /\ Within(Downs(Path(Append(s.under, s.name))), Downs(q.s))
Search ==
  /\ status = "search" /\ at <= Len(C.queries)
  /\ found' = Append(found, {i \in 1..Len(C.symbols) : Hit(C.queries[at], C.symbols[i])})
  /\ at' = at + 1 /\ UNCHANGED <<cid, status, open, entries>>
Report ==
  /\ status = "search" /\ at = Len(C.queries) + 1
  /\ Emit([cid |-> cid, entries |-> entries, found |-> found])
  /\ status' = "done" /\ UNCHANGED <<cid, at, open, entries, found>>

Next == Read \/ Finish \/ Search \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Entries are nested: what is under an entry lies between its lines; locals *)
(* are under procs.                                                            *)
Inv ==
  /\ \A i \in 1..Len(entries) :
       LET p == entries[i].parent IN
       p # 0 => p < i /\ entries[p].line <= entries[i].line /\ entries[i].end <= entries[p].end /\ entries[p].kind \in {"class", "method", "function", "constructor"}
  /\ \A i \in 1..Len(entries) : entries[i].kind = "variable" => entries[i].parent # 0 /\ entries[entries[i].parent].kind \notin {"class", "field"}
Terminates == <>(status = "done")
===============================================================================
