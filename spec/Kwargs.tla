-------------------------------- MODULE Kwargs ---------------------------------
(* Arguments given by keyword, and the procs which may receive them.           *)
(* A case is [parents, procs, calls]: parents[t] is the parent of type t (0:    *)
(* none), procs in text order [ty, name, params] (ty 0: a global proc), and     *)
(* calls [by, k, name, ty, args] with args a sequence of names ("": positional).*)
EXTENDS VCommon

VARIABLES cid, c, a, bad, late, used, o, up, missing, status
vars == <<cid, c, a, bad, late, used, o, up, missing, status>>

C == Cases[cid]
Range(s) == {s[i] : i \in 1..Len(s)}
N == Len(C.procs)
Proc(i) == C.procs[i]
Parent(t) == IF t = 0 THEN 0 ELSE C.parents[t]
Own(t, n) == {i \in 1..N : Proc(i).ty = t /\ Proc(i).name = n}
Latest(s) == CHOOSE i \in s : \A j \in s : j <= i
(* The proc n runs on an object of type t. *)
RECURSIVE On(_, _)
On(t, n) == IF Own(t, n) # {} THEN Latest(Own(t, n)) ELSE IF Parent(t) = 0 THEN 0 ELSE On(Parent(t), n)
Global(n) == IF Own(0, n) = {} THEN 0 ELSE Latest(Own(0, n))
Before(i) == LET s == {j \in Own(Proc(i).ty, Proc(i).name) : j < i} IN
  IF s # {} THEN Latest(s) ELSE IF Proc(i).ty = 0 \/ Parent(Proc(i).ty) = 0 THEN 0 ELSE On(Parent(Proc(i).ty), Proc(i).name)
(* What runs when a call comes from outside. *)
Seen(i) == Proc(i).ty # 0 /\ i = Latest(Own(Proc(i).ty, Proc(i).name))
RECURSIVE Below(_, _)
Below(t, s) == t # 0 /\ Parent(t) # 0 /\ (Parent(t) = s \/ Below(Parent(t), s))

Call == C.calls[c]
By == Proc(Call.by)
(* The type a call is made on, the proc it names, and whether only that proc   *)
(* can receive it. *)
Receiver == IF Call.k \in {"on", "new"} THEN Call.ty ELSE By.ty
Named ==
  CASE Call.k = "global" -> Global(Call.name)
    [] Call.k = "parent" -> Before(Call.by)
    [] Call.k = "again" -> Call.by
    [] OTHER -> IF Receiver # 0 /\ On(Receiver, Call.name) # 0 THEN On(Receiver, Call.name) ELSE Global(Call.name)
Exact == Call.k \in {"new", "parent", "again", "global"} \/ Named = 0 \/ Proc(Named).ty = 0
(* The built-in animate() takes its arguments in any order. *)
Lax == Proc(Named).ty = 0 /\ Proc(Named).name = "animate"
Takes(i, k) == k \in Range(Proc(i).params)

Init ==
  /\ cid \in 1..Len(Cases) /\ c = 1 /\ a = 1 /\ bad = {} /\ late = {} /\ used = {} /\ o = 1 /\ missing = {} /\ status = "calls"
  /\ up = 0

(* One argument at a time. *)
Argument ==
  /\ status = "calls" /\ c <= Len(C.calls) /\ a <= Len(Call.args)
  /\ LET k == Call.args[a] IN
     /\ bad' = IF k # "" /\ Named # 0 /\ ~Takes(Named, k)
               THEN bad \cup {[call |-> c, key |-> k, proc |-> Named, others |-> {j \in 1..N : Seen(j) /\ Proc(j).name = Proc(Named).name /\ Below(Proc(j).ty, Proc(Named).ty) /\ Takes(j, k)}]} ELSE bad
     /\ late' = IF k = "" /\ Named # 0 /\ ~Lax /\ (\E b \in 1..a - 1 : Call.args[b] # "") THEN late \cup {<<c, a>>} ELSE late
     /\ used' = IF k # "" /\ ~Exact /\ Takes(Named, k) THEN used \cup {[ty |-> Receiver, name |-> Call.name, key |-> k, call |-> c]} ELSE used
  /\ a' = a + 1 /\ UNCHANGED <<cid, c, o, up, missing, status>>
NextCall ==
  /\ status = "calls" /\ c <= Len(C.calls) /\ a > Len(Call.args)
  /\ c' = c + 1 /\ a' = 1 /\ UNCHANGED <<cid, bad, late, used, o, up, missing, status>>
Turn ==
  /\ status = "calls" /\ c > Len(C.calls)
  /\ status' = "overrides" /\ UNCHANGED <<cid, c, a, bad, late, used, o, up, missing>>

(* Each proc which objects run, against what is passed to those above it: one  *)
(* generation at a time.                                                       *)
Start ==
  /\ status = "overrides" /\ o <= N /\ up = 0
  /\ IF Seen(o) /\ Parent(Proc(o).ty) # 0 THEN up' = Parent(Proc(o).ty) /\ UNCHANGED o ELSE o' = o + 1 /\ UNCHANGED up
  /\ UNCHANGED <<cid, c, a, bad, late, used, missing, status>>
Climb ==
  /\ status = "overrides" /\ o <= N /\ up # 0
  /\ missing' = missing \cup {[by |-> o, key |-> u.key] : u \in {u \in used : u.ty = up /\ u.name = Proc(o).name /\ ~Takes(o, u.key)}}
  /\ IF Parent(up) # 0 THEN up' = Parent(up) /\ UNCHANGED o ELSE up' = 0 /\ o' = o + 1
  /\ UNCHANGED <<cid, c, a, bad, late, used, status>>
Report ==
  /\ status = "overrides" /\ o > N
  /\ Emit([cid |-> cid, bad |-> bad, late |-> late, missing |-> missing, used |-> used])
  /\ status' = "done" /\ UNCHANGED <<cid, c, a, bad, late, used, o, up, missing>>
Next == Argument \/ NextCall \/ Turn \/ Start \/ Climb \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(status = "done")

(* Whatever object a call is made on, what runs takes its keywords unless      *)
(* something is said.                                                          *)
Types == 1..Len(C.parents)
CallAt(i) == C.calls[i]
Inv == status = "done" =>
  /\ \A i \in 1..Len(C.calls) : CallAt(i).k \in {"self", "src", "on"} =>
       LET s == IF CallAt(i).k = "on" THEN CallAt(i).ty ELSE Proc(CallAt(i).by).ty IN
       s # 0 => \A t \in Types : (t = s \/ Below(t, s)) =>
         LET p == On(t, CallAt(i).name) IN
         p # 0 /\ On(s, CallAt(i).name) # 0 => \A k \in Range(CallAt(i).args) \ {""} :
           Takes(p, k) \/ (\E b \in bad : b.call = i /\ b.key = k) \/ [by |-> p, key |-> k] \in missing
  /\ \A m \in missing : Seen(m.by) /\ ~Takes(m.by, m.key) /\ m.key \in {u.key : u \in used}
==============================================================================
